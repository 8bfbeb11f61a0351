import sys, time
from .source import World
from .engine import Interp
from .numdom import NumDomain
from . import numspec
from collections import Counter

def main(pats):
    for key in sorted(numspec.op_contracts(World())):
        if pats and not any(p in key for p in pats):
            continue
        w = World()
        cs = numspec.op_contracts(w)
        X = Interp(w, cs, NumDomain(), numspec.LOOPS if hasattr(numspec, 'LOOPS') else ())
        X.deadline = time.time() + 400
        t = time.time()
        vs = X.verify(cs[key])
        c = Counter(v.status for v in vs)
        print(f'{key:45s} paths={X.npaths} {dict(c)} {time.time()-t:.1f}s', flush=True)
        shown = set()
        for v in vs:
            if v.status != 'ok' and (v.name, v.detail[-200:]) not in shown:
                shown.add((v.name, v.detail[-200:]))
                if len(shown) <= 6:
                    print('   ', v.status, v.name, v.detail[:900].replace('\n', '\n       '))

main(sys.argv[1:])
