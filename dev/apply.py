"""dev: apply refactorings to a tree: apply.py TREE batch[,batch] [ids]"""
import sys, glob, os
sys.argv, T = [sys.argv[0]], sys.argv[1:]
src = open('/verif/dev/refactor.py').read().replace('\nmain()\n', '\n')
exec(src)
os.system(f'cd {T[0]} && git checkout -q -- .')
for b in T[1].split(','):
    f = f'/verif/dev/refactors/{b}.py'
    exec(compile(open(f).read(), f, 'exec'), {'ref': lambda id, file, func, new='', imports='', b=b: ref(id, file, func, new, b, imports)})
for id, _, file, func, new, imports in REFS:
    if len(T) < 3 or id in T[2].split(','):
        apply(T[0], file, func, new, imports)
