from sh import *
def main():
    A=Ctx('X','q').A
    for l,o,e,*_ in ctor_runs(A,classes=['Incar']):
        if 'string' in l or 'dict' in l:
            print(l); pouts(o)
go(main)
