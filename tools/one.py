import sys, time, os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from amivc.frontend import *
p=Program(os.environ.get('SRC','/repo/src'), tuple(os.environ['DEFS'].split(',')) if os.environ.get('DEFS') else ())
from amivc import contracts as K, prover as PR
from amivc.terms import *
byfn,bylabel=K.attach(p)
L,out=sys.argv[1],sys.argv[2]
f=bylabel[L]; k=byfn[f.mangled]
ex,vcs=K.obligations(p,f,k,byfn)
for v in vcs:
    if v.out.startswith(out):
        S_=lambda x: (print("CODE",v.code), print("SPEC",v.spec), print("UNF",PR.unfold(v.spec)), print("H",v.hyps)) if not callable(v.spec) else None; S_(0)
        pr=PR.Prover(float(sys.argv[3]) if len(sys.argv)>3 else 60, float(sys.argv[4]) if len(sys.argv)>4 else 1)
        print(K.discharge(v,pr),v.time,pr.nz3,pr.z3time)
        if pr.failed:
            print('   F1',str(pr.failed[1])[:2500]); print('   F2',str(pr.failed[2])[:2500]); print('   H',str(pr.failed[3])[:9000])
