"""Meshes on integer lattices, moved about; every geometric measure of them is logged (C34)."""
import ctypes as C, math
from drv import *
from mstk import *
import meshes
from gens import Builder
BAD=99999999
def near(x,k): return BAD if math.isnan(x) or math.isinf(x) or abs(x*k)>9e7 else int(round(x*k))
def lattice(rng):
    for _ in range(100):
        g=meshes.rand2(rng) if rng.random()<.5 else meshes.rand3(rng)
        if len(g.pts)<=26 and ok(g.pts): return meshes.shuffle(g,rng)
    return meshes.shuffle(meshes.tets(1,1,1),rng)
def ok(P):
    return all(x==int(x) for p in P for x in p) and all(max(p[i] for p in P)-min(p[i] for p in P)<=5 for i in range(3))
def twist(P,rng):
    """an affine image of the points (a plane stays a plane)"""
    ax=[0,1,2]; rng.shuffle(ax); sg=[rng.choice([1,-1]) for _ in ax]
    Q=[[int(sg[i]*p[ax[i]]) for i in range(3)] for p in P]
    for _ in range(rng.choice([0,1,1,2])):
        i,j=rng.sample(range(3),2); k=rng.choice([1,-1]); T=[list(q) for q in Q]
        for q in T: q[i]+=k*q[j]
        if ok(T): Q=T
    return Q
class Lattice:
    def __init__(s,L,rng):
        s.L,s.rng=L,rng; g=lattice(rng); s.g=g
        S=s.S=Session(L,rng.choice([F1,F1,F4]),None,obs=False)
        Builder(S,g,rng,rng.choice(['edges','verts']),'flat').build(); S.sync()
        s.k=2.0**rng.choice([0,0,-1,10,-10,-30]); s.o=[rng.choice([0,0,7,-1000]) for _ in range(3)]
        s.V=[S.u2p[0][u] for u in sorted(S.u2p[0])]; s.E=[S.u2p[1][u] for u in sorted(S.u2p[1])]; s.F=[S.u2p[2][u] for u in sorted(S.u2p[2])]; s.R=[S.u2p[3][u] for u in sorted(S.u2p[3])]
        vi={p:i+1 for i,p in enumerate(s.V)}
        s.ev=[[vi[L.ME_Vertex(e,0)],vi[L.ME_Vertex(e,1)]] for e in s.E]
        s.fv=[[vi[v] for v in S.lst(L.MF_Vertices(f,1,None))] for f in s.F]
        s.rv=[[vi[v] for v in S.lst(L.MR_Vertices(r))] for r in s.R]
        P=[None]*len(s.V)
        for i,p in enumerate(s.V):
            a=(C.c_double*3)(); L.MV_Coords(p,a); P[i]=list(a)
        s.P=twist(P,rng)
        for i in range(len(P)): s.put(i)
    def put(s,i): s.L.MV_Set_Coords(s.V[i],dbl([s.k*(x+o) for x,o in zip(s.P[i],s.o)]))
    def back(s,a,off=True):
        out=[]
        for x,o in zip(a,s.o):
            y=x/s.k-(o if off else 0); out.append(int(y) if y==int(y) and abs(y)<1e6 else BAD)
        return out
    def move(s):
        r=s.rng; ch=[]
        if r.random()<.4:
            s.P=twist(s.P,r); ch=list(range(len(s.P)))
        else:
            for i in r.sample(range(len(s.P)),min(len(s.P),r.choice([1,1,2,4]))):
                old=list(s.P[i]); s.P[i]=[x+r.choice([-1,0,0,1]) for x in old]
                if not ok(s.P): s.P[i]=old
                else: ch.append(i)
        for i in ch: s.put(i)
        return [[i+1,[int(x) for x in s.P[i]]] for i in ch]
    def mesh(s): return dict(E=s.ev,F=s.fv,R=s.rv,X=[[int(x) for x in p] for p in s.P])
    def answers(s):
        L,r=s.L,s.rng; q=dict(X=[],len=[],vec=[],fco=[],rco=[],ang=[],dih=[],cond=[]); a=(C.c_double*3)(); big=(C.c_double*600)(); n=C.c_int(0)
        for p in s.V: L.MV_Coords(p,a); q['X'].append(s.back(a))
        for e in s.E:
            l2=L.ME_LenSqr(e)/(s.k*s.k); q['len'].append([int(l2) if l2==int(l2) and abs(l2)<1e6 else BAD,near(L.ME_Len(e)/s.k,1000)])
            L.ME_Vec(e,a); q['vec'].append(s.back(a,False))
        for f in s.F:
            L.MF_Coords(f,C.byref(n),big); q['fco'].append([s.back(big[3*i:3*i+3]) for i in range(n.value)])
            L.MF_CondNums(f,C.byref(n),big); q['cond'].append([near(big[i],100) for i in range(n.value)])
        for x in s.R:
            L.MR_Coords(x,C.byref(n),big); q['rco'].append([s.back(big[3*i:3*i+3]) for i in range(n.value)])
        star={}
        for i,e in enumerate(s.ev):
            for v in e: star.setdefault(v,[]).append(i)
        def K(x): return near(x,5000)
        for _ in range(30):
            c=star[r.choice(sorted(star))]
            i,j=(r.choice(c),r.choice(c)) if r.random()<.9 else (r.randrange(len(s.E)),r.randrange(len(s.E)))
            if i!=j: q['ang'].append([i+1,j+1,K(L.MEs_Angle(s.E[i],s.E[j]))])
        by={}
        for i,f in enumerate(s.fv):
            for k in range(len(f)): by.setdefault(frozenset((f[k],f[(k+1)%len(f)])),[]).append(i)
        ei={frozenset(e):i for i,e in enumerate(s.ev)}
        two=sorted([sorted(k),x] for k,x in by.items() if len(x)>1)
        for _ in range(30):
            if two and r.random()<.95:
                k,fs=r.choice(two); i,j=r.sample(fs,2); e=ei[frozenset(k)] if r.random()<.7 else -1
            else: i,j=r.randrange(len(s.F)),r.randrange(len(s.F)); e=-1
            if i!=j: q['dih'].append([i+1,j+1,e+1,K(L.MFs_DihedralAngle(s.F[i],s.F[j],s.E[e] if e>=0 else None))])
        return q
def geom(L,log,rng,count):
    while log.n<count:
        G=Lattice(L,rng); log.put(dict(op='mesh',a=G.mesh(),q=G.answers()))
        for _ in range(rng.choice([2,4,8])): log.put(dict(op='move',a=G.move(),q=G.answers()))
PROFILES=dict(geom=geom)
