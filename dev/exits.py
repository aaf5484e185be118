import sys,threading; sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
from checker.harness import Ctx
from checker.corpus import *
from collections import Counter
def main():
    A=Ctx('X','q').A
    C=Counter()
    for l,o,e,*_ in list(ctor_runs(A))+list(method_runs(A)):
        for x in o:
            if x.kind=='raise': C[(x.val.args[0],show(x.val)[:100] if x.val.args[0]!='SystemExit' else x.val.args[1],shortw(x.site))]+=1
    for k,v in sorted(C.items(),key=str): print(v,k)
sys.setrecursionlimit(60000)
threading.stack_size(512<<20)
t=threading.Thread(target=main);t.start();t.join()
