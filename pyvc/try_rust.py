"""verify functions of a Rust family and print the verdicts: python3-vt -m pyvc.try_rust rtape [key...]"""
import sys, time
from .families import FAMILIES
from .rengine import RWorld, RInterp
F = FAMILIES[sys.argv[1]]
w = F.world()
cs = F.contracts(w)
for k in sys.argv[2:] or list(cs):
    if not cs[k].verify:
        continue
    t = time.time()
    X = F.interp(w, cs, dict(timeout=4000))
    fv = w.func(k)
    if fv is None:
        print(k, 'MISSING')
        continue
    v = X.verify(cs[k], fv)
    bad = [x for x in v if x.status != 'ok']
    print(k, len(v), 'obligations', len(bad), 'bad', 'paths', X.npaths, X.paths_done, f'{time.time() - t:.1f}s')
    for b in bad[:6]:
        d = b.as_dict()
        print('   ', d['status'], d['name'], d['detail'][:int(sys.argv[0] and 400)])
