import random, sys, os, tempfile, shutil, collections
from . import core
from .gen import *
from .world import *
core._private='/repo/target/debug/dld'
n=int(sys.argv[1]); bad=collections.Counter(); base=int(sys.argv[2]) if len(sys.argv)>2 else 0
rep=core.Report()
for i in range(base,base+n):
    rng=random.Random(i)
    d=tempfile.mkdtemp(dir='/dev/shm')
    g=Gen(rng); w=g.build(); w.emit(d,rng)
    res=w.link(d)
    msgs=[]
    if res.rc!=0: msgs.append(('link',res.rc,res.err[:300]))
    else:
        v=View(w,open(d+'/out','rb').read())
        for f in (oracle_layout,oracle_relocs,oracle_binding,oracle_symtab,oracle_hash,oracle_dynamic,oracle_imports,oracle_elf,oracle_arrays):
            for m in f(v,rep): msgs.append((f.__name__,m))
    if msgs:
        print(i,d)
        for m in msgs[:4]: print('   ',m)
        bad[msgs[0][0]]+=1
        if sum(bad.values())>8: break
    else: shutil.rmtree(d)
print(bad); print(dict(rep.counts))
