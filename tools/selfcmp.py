"""compare every function with itself (sanity of the engine) and report time"""
import sys, time, ast, traceback
sys.path.insert(0, '/verif'); sys.setrecursionlimit(100000)
from msa.project import Project
from msa import equiv
from msa.equiv import Ob, check
P=Project()
tot={}
for m in P.modules.values():
    for n in m.tree.body:
        fns=[(m.name+':'+n.name,n)] if isinstance(n,ast.FunctionDef) else []
        if isinstance(n,ast.ClassDef):
            fns=[(m.name+':'+n.name+'.'+s.name,s) for s in n.body if isinstance(s,ast.FunctionDef)]
        for ref,node in fns:
            if len(sys.argv)>1 and sys.argv[1] not in ref: continue
            args={a.arg:'any' for a in node.args.args+node.args.kwonlyargs}
            t=time.time()
            try:
                r=check(P,Ob('x',ref,ref,args,raises=True),nval=24)
                tot[r.status]=tot.get(r.status,0)+1
                if r.status!='ok': print(ref,r.status,r.detail[:300],r.where)
            except Exception as e:
                print('ERR',ref,repr(e)[:200]); 
                tb=traceback.extract_tb(e.__traceback__); print('    ',[ (f.name,f.lineno) for f in tb[-5:]])
            if time.time()-t>3: print('slow',ref,round(time.time()-t,1))
print(tot)
