import sys,threading; sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
from collections import Counter
from checker.harness import Ctx
from checker.corpus import *
def main():


    A=Ctx('X','q').A
    C=Counter(); ex=Counter()
    print('load', Counter(e.kind for e in A.load_events))
    for e in A.load_events:
        if e.kind in('extcall','open','call','gwrite','print','log'): print('  ',e)
    import time
    t=time.time()
    R=[(l,o,e) for l,o,e,*_ in ctor_runs(A)]
    print('ctor',time.time()-t); t=time.time()
    R+=[(l,o,e) for l,o,e,*_ in method_runs(A)]
    print('meth',time.time()-t)
    for l,o,ev in R:
        for e in ev:
            C[e.kind]+=1
            if e.kind in('extcall',): ex[show(e.data[0])]+=1
            if e.kind in ('method','hcall'): ex[e.kind+' '+str(e.data[1])]+=1
            if e.kind=='call': ex['call '+show(e.data[0])[:60]]+=1
    print(C); print(ex)
    for k,v in sorted(A.notes.items(),key=lambda kv:-kv[1])[:40]: print(k,v)
sys.setrecursionlimit(60000)
threading.stack_size(512<<20)
t=threading.Thread(target=main);t.start();t.join()
