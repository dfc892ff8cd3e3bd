import sys, time; sys.path.insert(0,'/verif')
from amivc.frontend import *
p=Program(sys.argv[2] if len(sys.argv)>2 else '/repo/src')
from amivc import contracts as K, prover as PR
from amivc.terms import *
byfn,bylabel=K.attach(p)
names=sys.argv[1].split(',') if len(sys.argv)>1 and sys.argv[1]!='all' else list(bylabel)
for L in names:
    f=bylabel[L]; k=byfn[f.mangled]
    try:
        ex,vcs=K.obligations(p,f,k,byfn)
    except Unsupported as u:
        print('UNS',L,u); continue
    except Exception as e:
        import traceback; traceback.print_exc(); print('EXC',L,repr(e)[:300]); continue
    for v in vcs:
        pr=PR.Prover(60)
        if not K.discharge(v,pr):
            print('!!',v.name,v.kind,v.status,'%.1f'%v.time, v.why or '')
            if pr.failed and len(names)<3: 
                print('   F1',str(pr.failed[1])[:1500]); print('   F2',str(pr.failed[2])[:1500]); print('   H',str(pr.failed[3])[:800])
                if '-v' in sys.argv: print('CODE',v.code); print('SPEC',v.spec)
    ok=[v for v in vcs if v.status=='proved']
    print(L,len(ok),'/',len(vcs),'%.1fs'%sum(v.time for v in vcs),'obls',len(ex.obls),'uses',sorted(ex.used))
