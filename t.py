import sys, importlib
import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyvc.verify import *
mod=sys.argv[1]; importlib.import_module('contracts.'+mod)
pat=sys.argv[2] if len(sys.argv)>2 else ''
root='/repo'
vb='-v' in sys.argv
for n,c in list(CONTRACTS.items()):
    if c.spec.__module__!='contracts.'+mod: continue
    if pat and pat[0]!='-' and pat not in n: continue
    if pat and pat!='-v' and '-d' in sys.argv:
        r,o=verify(c,root,debug=True,verbose=vb)
    else: r=verify(c,root,verbose=vb)
    print(r.status.upper(), n, '%d/%d'%(r.discharged,r.obligations), 'paths',r.paths,'%.1fs (solver %.1fs)'%(r.time,r.solver_time), r.reason, r.notes or '', r.backends)
    for f in r.failed[:6]:
        print('    FAILED', f[0], f[1], f[2]); print('        goal', f[4][:600])
        if '-m' in sys.argv: print('        model', f[3][:1500])
