import sys, time, importlib
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512*1024*1024)
from engine import dump, interp as I
from engine.oblig import check
def main():
    import obligs.all as A
    pid=sys.argv[1]; pat=sys.argv[2] if len(sys.argv)>2 else ''
    repo=sys.argv[3] if len(sys.argv)>3 else '/verif/build/repo/out/ellalgo_rs-Rlib.json'
    R=I.Program(repo); S=I.Program('/verif/build/spec/out/ellalgo_rs-Rlib.json')
    for p in sorted(A.OBS):
        if pid not in p: continue
        for nm,sc in A.OBS[p]:
            if pat in nm:
                r=check(R,S,nm,sc)
                print('%-9s %6.1fs n=%d %s %s: %s'%(r.status,r.seconds,r.n,p,nm,r.detail[:700]),flush=True)
t=threading.Thread(target=main); t.start(); t.join()
