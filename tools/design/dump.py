import sys,importlib,os
sys.path.insert(0,'/verif/lib'); sys.path.insert(0,'/verif/checks'); sys.path.insert(0,'/verif')
import glob
for f in sorted(glob.glob('/verif/checks/c*.py')):
    n=os.path.basename(f)[:-3]
    m=importlib.import_module('checks.'+n)
    c=[v for v in vars(m).values() if type(v).__name__=='Check'][0]
    print('##',c.pid); print(' rule:',c.rule); print(' assume:',c.assumptions)
    for s in c.subs: print('  -',s.name,s.quick,s.thorough)
