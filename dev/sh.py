import sys,threading; sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
from checker.harness import Ctx
from checker.corpus import *
def go(main):
    sys.setrecursionlimit(60000)
    threading.stack_size(512<<20)
    t=threading.Thread(target=main);t.start();t.join()
def pouts(outs,n=12,w=1200):
    for o in outs[:n]:
        print('--',o.kind,show(o.val)[:200] if o.val is not None else '',shortw(o.site) if o.site else '')
        for x in o.st.pc: print('      ',show(x)[:w])
