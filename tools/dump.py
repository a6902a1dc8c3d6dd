"""dump.py REF [k=v ..]: print the value graph of one function"""
import sys, time, ast, traceback
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
from msa.project import Project
from msa.interp import Interp, Giveup
from msa.terms import *
def sig(node):
    a=node.args
    return [x.arg for x in a.posonlyargs+a.args+a.kwonlyargs]
def pr(I, ret, S):
    print('RET', show(ret and I.freeze(ret), 9))
    for k,v in S.items():
        if k[0]=='o' and k[1].op!='ref': print('CELL', show(k[1]), '=', show(I.freeze(v), 8))
        if k[0]=='g': print('GLOB', k, show(v,8))
        if k[0]=='f': print('FLAG', k, show(v,8))
    def evs(es, ind):
        for e in es:
            if e.kind=='loop':
                print('  '*ind, 'LOOP', e.loop.id, 'guard', show(e.guard,4)); evs(e.loop.events, ind+1)
            else: print('  '*ind, e.kind, 'chan=', e.chan and show(e.chan,3), 'guard', show(e.guard,4), [show(a,6) for a in e.args])
    evs(I.events,1)
    for l,L in I.loops.items():
        print('LOOP',l,'count',show(L.count,6) if L.count is not None else None,'stop',show(L.stop,7), 'parent', L.parent, 'line', getattr(L.node,'lineno',None))
        for k in L.next:
            print('   ',k,': init',show(L.init[k],5) if k in L.init else '-',' next',show(L.next[k],10))
if __name__=='__main__':
    P=Project()
    if sys.argv[1]=='all':
        ok=bad=0
        for m in P.modules.values():
            for n in m.tree.body:
                fns=[(m.name+':'+n.name,n)] if isinstance(n,ast.FunctionDef) else []
                if isinstance(n,ast.ClassDef):
                    fns=[(m.name+':'+n.name+'.'+s.name,s) for s in n.body if isinstance(s,ast.FunctionDef)]
                for ref,node in fns:
                    I=Interp(P); t=time.time()
                    try:
                        I.run(ref,{a:mk('sym',a,'any') for a in sig(node)}); ok+=1
                        dt=time.time()-t
                        if dt>0.5: print('slow',ref,round(dt,2))
                    except Giveup as e: bad+=1; print('GIVEUP',ref,e)
                    except Exception as e: bad+=1; print('ERR',ref,repr(e)); tb=traceback.extract_tb(e.__traceback__); print('    ',[ (f.name,f.lineno) for f in tb[-4:]])
        print(ok,bad)
    else:
        ref=sys.argv[1]; r=P.fn(ref); I=Interp(P)
        args={a:mk('sym',a,'any') for a in sig(r[1])}
        ret=I.run(ref,args); pr(I,ret,I.S)
