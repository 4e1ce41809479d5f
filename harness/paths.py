"""Executes paths printed by TLC (MeshMC) on the real library.  Every path names entities by their vertices;
all but its last action run unlogged, the mesh before and after the last one is logged for MeshTrace."""
import json, os, random, ctypes as C
from drv import *
from gens import View, REPS
import meshes, elem
from mstk import *

START={}
def starts():
    """the start meshes of MeshMC, as TLC printed them"""
    if not START:
        for x in json.load(open(os.environ['PATHS']+'.starts')): START[tuple(x['st'])]=x
    return START
def build(L,st,rng,rep):
    g=starts()[tuple(st)]
    S=Session(L,rep,None)
    pts=set()
    while len(pts)<len(g['V']): pts.add(tuple(rng.randint(-4,4) for _ in range(3)))
    V=[None]+[S.mkv(p,c) for p,c in zip(rng.sample(sorted(pts),len(pts)),g['CV'])]
    E={}; order=list(range(len(g['E']))); rng.shuffle(order)
    for i in order:
        a,b=g['E'][i]
        if rng.random()<.5: a,b=b,a
        E[i+1]=(S.mke(V[a],V[b],g['CE'][i]),a)
    F={}; order=list(range(len(g['F']))); rng.shuffle(order)
    for i in order:
        c=g['F'][i]; k=rng.randrange(len(c)); c=c[k:]+c[:k]
        F[i+1]=S.mkf([E[e][0] for _,e in c],[1 if E[e][1]==v else 0 for v,e in c],g['CF'][i])
    order=list(range(len(g['R']))); rng.shuffle(order)
    for i in order:
        u=list(g['R'][i]); rng.shuffle(u)
        S.mkr([F[f] for f,_ in u],[d for _,d in u],g['CR'][i])
    S.sync(); S.snap=S.project(); S.names={}; S.pts=pts
    return S
class Gone(Exception): pass
class Act:
    """one action of MeshMC on the real mesh"""
    def __init__(self,S,rng): self.S,self.rng=S,rng
    def one(self,c):
        c=list(c)
        if len(c)!=1: raise Gone()
        return c[0]
    def e(self,vs): return self.one(e for e in self.w.E if set(self.w.ev[e])==set(vs))
    def f(self,vs): return self.one(f for f in self.w.F if set(self.w.fv[f])==set(vs))
    def r(self,vs): return self.one(r for r in self.w.R if self.w.rv[r]==set(vs))
    def do(self,op,a,put):
        self.w=View(self.S.snap); S,L,rng=self.S,self.S.L,self.rng; u2p=S.u2p
        sc=S.scale
        def newpt():
            while True:
                p=tuple(rng.randint(-9,9)*sc+rng.randint(1,sc-1) for _ in range(3))
                if p not in S.pts: S.pts.add(p); return list(p)
        def ix(p): return dbl([x/sc for x in p])
        if op=='split':
            e=self.e(a); v0=self.w.ev[e][0]; give=rng.random()<.5; xyz=newpt()
            if rng.random()<.6:
                v=L.ME_Split(u2p[1][e],ix(xyz) if give else None); S.sync()
                es=[S.uid(1,x) for x in S.lst(L.MV_Edges(v))]
                es.sort(key=lambda x:0 if v0 in (S.uid(0,L.ME_Vertex(u2p[1][x],0)),S.uid(0,L.ME_Vertex(u2p[1][x],1))) else 1)
            else:
                l=L.ME_MultiSplit(u2p[1][e],1,ix(xyz) if give else None); S.sync(); es=[S.uid(1,x) for x in S.lst(l)]
            put(op,{'e':e,'v0':v0,'n':1,'xyz':[xyz] if give else []},{'es':es})
        elif op=='fsplit':
            f=self.f(a); xyz=newpt(); v=L.MF_Split(u2p[2][f],ix(xyz)); S.sync(); put(op,{'f':f,'xyz':xyz},S.uid(0,v))
        elif op=='fsplite':
            f=self.f(a[0]); x=L.MF_Split_with_Edge(u2p[2][f],u2p[0][a[1]],u2p[0][a[2]]); S.sync(); put(op,{'f':f,'v0':a[1],'v1':a[2]},S.uid(1,x))
        elif op=='simpe':
            e=self.e(a); v0=self.w.ev[e][0]; xyz=newpt() if rng.random()<.6 else None
            v=L.ME_Split_SimplexMesh(u2p[1][e],ix(xyz) if xyz else None); S.sync(); put(op,{'e':e,'v0':v0,'xyz':[xyz] if xyz else []},S.uid(0,v))
        elif op=='simpf':
            f=self.f(a); xyz=newpt(); v=L.MF_Split_SimplexMesh(u2p[2][f],ix(xyz)); S.sync(); put(op,{'f':f,'xyz':xyz},S.uid(0,v))
        elif op=='loopr':
            x=self.r(a[0]); lp=[self.e(y) for y in a[1]]; k=rng.randrange(len(lp)); lp=lp[k:]+lp[:k]
            if rng.random()<.5: lp.reverse()
            f=L.MR_Split_with_EdgeLoop(u2p[3][x],len(lp),ptrs([u2p[1][e] for e in lp])); S.sync(); put(op,{'reg':x,'es':lp},S.uid(2,f))
        elif op in ('mergev','mergee','mergef'):
            w=self.w; srt=lambda x:sorted(set(tuple(sorted(y)) for y in x)); k=['mergev','mergee','mergef'].index(op); topo=a[-1]
            if k==0: u,d=a[0],a[1]
            elif k==1: u,d=[self.one(e for e in w.E if set(w.ev[e])==set(a[0]) and srt(w.fv[f] for f in w.ef[e])==srt(y)) for y in a[1:3]]
            else: u,d=[self.one(f for f in w.F if set(w.fv[f])==set(a[0]) and srt(w.rv[x] for x in w.fr[f])==srt(y)) for y in a[1:3]]
            x=[L.MVs_Merge,L.MEs_Merge,L.MFs_Merge][k](u2p[k][u],u2p[k][d],topo)
            put(op,{'k':u,'d':d,'topo':topo,'sets':[]},{'v':S.uid(k,x) if x else 0,'sets':[]},keepdel=[(k,d)] if x else ())
            for k in range(4):
                for u,p in list(S.kept[k].items()): L.MEnt_Delete(p,0); del S.kept[k][u]; S.p2u[k].pop(p,None)
            S.sync(); S.snap=S.project()
        elif op=='joinf':
            f1,f2,e=self.f(a[0]),self.f(a[1]),self.e(a[2]); x=L.MFs_Join(u2p[2][f1],u2p[2][f2],u2p[1][e]); S.sync(); put(op,{'f1':f1,'f2':f2,'e':e},S.uid(2,x))
        elif op=='joinr':
            r1,r2,f=self.r(a[0]),self.r(a[1]),self.f(a[2]); x=L.MRs_Join(u2p[3][r1],u2p[3][r2],u2p[2][f]); S.sync(); put(op,{'r1':r1,'r2':r2,'f':f},S.uid(3,x))
        elif op=='swap':
            e=self.e(a); v0=self.w.ev[e][0]; en=C.c_void_p(0); fn=(C.c_void_p*2)()
            ok=L.ME_Swap2D(u2p[1][e],C.byref(en),fn); S.sync()
            put(op,{'e':e,'v0':v0},{'ok':ok,'e':S.uid(1,en.value) if ok==1 else 0,'f':[S.uid(2,fn[0]),S.uid(2,fn[1])] if ok==1 else []})
        elif op=='collapse':
            e=self.e(a[0]); vk,topo=a[1],a[2]
            back={}
            for k in range(4):
                for u,p in u2p[k].items(): back[p]=(k,u)
            dl=C.c_void_p(0); mg=C.c_void_p(0)
            x=L.ME_Collapse(u2p[1][e],u2p[0][vk],topo,C.byref(dl),C.byref(mg)); dels=[];merged=[]
            if x:
                dels=[list(back.get(p,(9,0))) for p in S.lst(dl.value)]; m=[back.get(p,(9,0)) for p in S.lst(mg.value)]
                merged=[[m[i][0],m[i][1],m[i+1][1]] for i in range(0,len(m)-1,2)]
            put(op,{'e':e,'vk':vk,'pref':1,'topo':topo},{'v':S.uid(0,x) if x else 0,'del':dels,'merged':merged},keepdel=[tuple(d) for d in dels])
            for k in (3,2,1,0):
                for u,p in list(S.kept[k].items()): L.MEnt_Delete(p,0); del S.kept[k][u]; S.p2u[k].pop(p,None)
            S.sync(); S.snap=S.project()
        elif op=='del':
            k,vs,keep=a; u=[lambda v:v[0],self.e,self.f,self.r][k](vs)
            p=u2p[k][u]; (getattr(L,PFX[k]+'_Delete') if rng.random()<.5 else L.MEnt_Delete)(p,keep)
            if keep: S.names[(k,tuple(vs))]=(u,p)
            put(op,{'k':k,'u':u,'keep':keep},[L.MEnt_Dim(p),L.MEnt_OrigDim(p)] if keep else [],keepdel=[(k,u)] if keep else ())
        elif op=='restore':
            k,vs=a; u,p=S.names.pop((k,tuple(vs))); getattr(L,PFX[k]+'_Restore')(p); S.sync(); put(op,{'k':k,'u':u},[L.MEnt_Dim(p),L.MEnt_OrigDim(p)])
        elif op=='newe':
            p=S.mke(u2p[0][a[0]],u2p[0][a[1]],[2,1]); put(op,{'v':a,'c':[2,1]},0)
        elif op=='newfv':
            p=S.mkfv([u2p[0][v] for v in a],[2,1]); put(op,{'v':a,'c':[2,1]},0)
        else: raise RuntimeError(op)
def mesh_paths(L,log,rng,count):
    """a slice (SLICE=i/n) or a random sample of the paths"""
    ps=[json.loads(x) for x in open(os.environ['PATHS'])]; bl=os.environ.get('BLOCKS')
    sl=os.environ.get('SLICE'); last=[x for x in os.environ.get('LAST','').split(',') if x]
    if last: ps=[p for p in ps if p['h'][-1]['op'] in last]
    if sl: i,n=map(int,sl.split('/')); ps=ps[i::n]
    else: rng.shuffle(ps)
    for p in ps:
        if log.n>=count and not sl: break
        S=build(L,p['st'],rng,rng.choice(REPS)); A=Act(S,rng); ex=elem.blocks(S,rng,bl) if bl else None
        quiet=lambda op,a,r,keepdel=():(S.sync(keepdel),setattr(S,'snap',S.project()))
        try:
            for x in p['h'][:-1]: A.do(x['op'],x['a'],quiet)
            S.log=log; S.emit('init')
            x=p['h'][-1]; A.do(x['op'],x['a'],lambda op,a,r,keepdel=():S.emit(op,a,r,keepdel,extra=ex))
        except Gone: raise RuntimeError('the library left the path %s'%json.dumps(p))
        L.MESH_Delete(S.mesh)

class ListPath:
    """actions of ListMC on a real list"""
    def __init__(self,D,ini): self.D=D; self.L=D.L; self.l=D.L.List_New(ini)
    def do(self,op,a):
        """-> logged arguments, return value"""
        D,L,l=self.D,self.L,self.l; P=D.P
        if op in('add','chknadd'):
            self.l=getattr(L,'List_Add' if op=='add' else 'List_ChknAdd')(l,P(a[0])); return {'v':a[0]},0
        if op=='insert': L.List_Insert(l,P(a[0]),P(a[1])); return {'v':a[0],'b':a[1]},0
        if op=='inserti': L.List_Inserti(l,P(a[0]),a[1]); return {'v':a[0],'i':a[1]},0
        if op=='rem': return {'v':a[0]},L.List_Rem(l,P(a[0]))
        if op=='remi': return {'i':a[0]},L.List_Remi(l,a[0])
        if op=='remraw':
            i=a[0]; raw=[D.V(L.List_Entry_Raw(l,j)) for j in range(L.List_Size_Raw(l))]
            if i>=len(raw): raise Gone()
            return {'rank':sum(1 for x in raw[:i+1] if x) if raw[i] else 0},L.List_Remi_Raw(l,i)
        if op=='remsorted':
            from cont import E2IF
            return {'v':a[0]},L.List_RemSorted(l,P(a[0]),E2IF)
        if op=='replace': return {'v':a[0],'w':a[1]},L.List_Replace(l,P(a[0]),P(a[1]))
        if op=='replacei': return {'i':a[0],'w':a[1]},L.List_Replacei(l,a[0],P(a[1]))
        if op=='compress': L.List_Compress(l); return {},0
        if op=='sort':
            from cont import CMPF
            L.List_Sort(l,L.List_Num_Entries(l),8,CMPF); return {},0
        if op=='copy': self.l=L.List_Copy(l); L.List_Delete(l); return {},0
        if op=='cat':
            s=L.List_New(2)
            for v in a[0]: L.List_Add(s,P(v or 7))
            for j,v in enumerate(a[0]):
                if not v: L.List_Remi_Raw(s,j)
            L.List_Cat(l,s); L.List_Delete(s); return {'e':[v for v in a[0] if v]},0
        raise RuntimeError(op)
def list_paths(L,log,rng,count):
    from cont import ListDriver
    ps=[json.loads(x) for x in open(os.environ['PATHS'])]; sl=os.environ.get('SLICE')
    if sl: i,n=map(int,sl.split('/')); ps=ps[i::n]
    else: rng.shuffle(ps)
    D=ListDriver(L,log,rng); D.POOL=4
    for p in ps:
        if log.n>=count and not sl: break
        X=ListPath(D,p['ini'])
        try:
            for op,a in p['h'][:-1]: X.do(op,a)
            D.ls={1:X.l}; D.put('load',{'e':p['pre']},0)
            op,a=p['h'][-1]; a,r=X.do(op,a)
            D.ls={1:X.l}; D.put(op,dict(a,l=1),r)
        except Gone: raise RuntimeError('the library left the path %s'%json.dumps(p))
        L.List_Delete(X.l)
