import sys; sys.path.insert(0,'/verif')
from amivc.frontend import *
from amivc.symex import *
p=Program(sys.argv[2] if len(sys.argv)>2 else '/repo/src')
def run(f):
    ex=Exec(p,{})
    env={}
    fr=Frame(f,f.tu)
    for n,s in STRUCTS['AmiBase']: env[('this',n)]=var('this.'+n,s)
    for q in f.params: env[(fr.id,q['id'])]=var(q.get('name','_'),ex.sort(q))
    e,x=ex.stmt(f.body,env,TRUE,fr)
    e,ret=ex.finish(e,x,None,TRUE)
    return ex,e,ret,fr
import time
for f in list(p.funcs.values()):
    if f.name.startswith('print') or f.node.get('kind')=='CXXConstructorDecl' or f.name in ('sgn','isEqual'): continue
    if len(sys.argv)>1 and sys.argv[1]!='all' and f.name!=sys.argv[1]: continue
    t=time.time()
    try:
        ex,e,ret,fr=run(f)
        print('OK ',f.name,len(f.params),'%.2f'%(time.time()-t),'obls',len(ex.obls),'ret size',ret.size if isinstance(ret,T) else ret)
        if len(sys.argv)>1 and sys.argv[1]!='all':
            print('  RET',ret)
            for q in f.params:
                v=e[(fr.id,q['id'])]
                if v is not var(q.get('name','_'),ex.sort(q)): print('  ',q['name'],'=',v)
            for n,s in STRUCTS['AmiBase']:
                v=e[('this',n)]
                if v is not var('this.'+n,s): print('  this.',n,'=',v)
            for o in ex.obls[:40]: print('   obl',o.kind,o.loc,o.cond,'|',o.hyps)
    except Unsupported as u: print('UNS',f.name,u)
    except Exception as e:
        import traceback; tb=traceback.extract_tb(e.__traceback__)[-1]; print('EXC',f.name,repr(e)[:200],tb.filename[-9:],tb.lineno)
        if len(sys.argv)>1 and sys.argv[1]!='all': raise
