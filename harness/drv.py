"""Session: drives one MSTK mesh through its API, gives entities stable uids and projects the observable state.

The projection is purely what the public query functions return.  Every executed call is appended to an ndjson
log as {op, a(rguments), r(eturn), s(tate), q(ueries)} and later checked by TLC against the TLA+ specification."""
import json, os, random, sys, ctypes as C
import mstk
from mstk import dbl, ints, ptrs, F1,F4,R1,R2,R4
KINDS=['V','E','F','R']
PFX=['MV','ME','MF','MR']
NAME=['Vertex','Edge','Face','Region']
PL=['Vertices','Edges','Faces','Regions']
SCALE=5040

class Log:
    def __init__(self,path):
        self.f=open(path,'a',buffering=1) if path else None
        self.n=0
        self.lines=[]
    def put(self,rec):
        self.n+=1; self.last=rec['op']
        if self.f: self.f.write(json.dumps(rec,separators=(',',':'))+'\n')
        else: self.lines.append(rec)

class Session:
    def __init__(self,L,rep=F1,log=None,mesh=None,obs=True,scale=SCALE,order=False):
        self.L=L; self.rep=rep; self.log=log; self.scale=scale
        self.mesh=mesh if mesh is not None else L.MESH_New(rep)
        self.p2u=[{} for _ in range(4)]; self.u2p=[{} for _ in range(4)]
        self.kept=[dict() for _ in range(4)]     # uid->ptr of entities deleted with keep
        self.next=[1]*4
        self.obs=obs
        self.snap=None
    # ---------- lists
    def lst(self,l,delete=True):
        L=self.L
        if not l: return []
        n=L.List_Num_Entries(l)
        out=[L.List_Entry(l,i) for i in range(n)]
        if delete: L.List_Delete(l)
        return out
    def iter(self,k):
        L=self.L; f=getattr(L,'MESH_Next_'+NAME[k]); idx=C.c_int(0); out=[]
        while True:
            p=f(self.mesh,C.byref(idx))
            if not p: break
            out.append(p)
            if len(out)>200000: raise RuntimeError('endless iteration')
        return out
    def uid(self,k,p):
        if not p: return 0
        return self.p2u[k].get(p,-1)
    def uids(self,k,ps): return [self.uid(k,p) for p in ps]
    def ptr(self,k,u): return self.u2p[k].get(u) or self.kept[k].get(u)
    # ---------- projection
    def sync(self,keepdel=()):
        """assign uids to new entities; forget or keep the ones that left the mesh"""
        L=self.L
        for k in range(4):
            cur=self.iter(k); curset=set(cur)
            for u,p in list(self.u2p[k].items()):
                if p not in curset:
                    del self.u2p[k][u]
                    if (k,u) in keepdel: self.kept[k][u]=p
                    else: self.p2u[k].pop(p,None)
            for p in cur:
                u=self.p2u[k].get(p)
                if u is None:
                    u=self.next[k]; self.next[k]+=1
                    self.p2u[k][p]=u
                if u in self.kept[k]: del self.kept[k][u]
                self.u2p[k][u]=p
            if k==0: self.order=[None]*4
            self.order[k]=[self.p2u[k][p] for p in cur]
    def fcyc(self,p):
        L=self.L
        es=self.lst(L.MF_Edges(p,1,None))
        return [[self.uid(1,e),L.MF_EdgeDir_i(p,i)] for i,e in enumerate(es)]
    def coords(self,p):
        a=(C.c_double*3)(); self.L.MV_Coords(p,a)
        return [int(round(x*self.scale)) for x in a]
    def project(self):
        L=self.L
        n=[self.next[k]-1 for k in range(4)]
        s={k:[[] for _ in range(n[i])] for i,k in enumerate(KINDS)}
        for i,k in enumerate(KINDS):
            s['C'+k]=[[] for _ in range(n[i])]; s['X'+k]=[0]*n[i]; s['I'+k]=[0]*n[i]
            s['O'+k]=list(self.order[i])
        for i,k in enumerate(KINDS):
            for st,mp in ((1,self.u2p[i]),(2,self.kept[i])):
                for u,p in mp.items():
                    s['X'+k][u-1]=st
                    s['C'+k][u-1]=[getattr(L,PFX[i]+'_GEntDim')(p),getattr(L,PFX[i]+'_GEntID')(p)]
                    s['I'+k][u-1]=getattr(L,PFX[i]+'_ID')(p)
                    if i==0: s['V'][u-1]=self.coords(p)
                    elif i==1: s['E'][u-1]=[self.uid(0,L.ME_Vertex(p,0)),self.uid(0,L.ME_Vertex(p,1))]
                    elif i==2: s['F'][u-1]=self.fcyc(p)
                    else:
                        fs=self.lst(L.MR_Faces(p))
                        s['R'][u-1]=[[self.uid(2,f),L.MR_FaceDir_i(p,j)] for j,f in enumerate(fs)]
        return s
    def idarr(self,fn,p,k,*pre,cap=4096):
        n=C.c_int(0); arr=(C.c_int*cap)()
        fn(p,*pre,C.byref(n),arr)
        fromid=getattr(self.L,'MESH_%sFromID'%NAME[k])
        m={getattr(self.L,PFX[k]+'_ID')(q):u for u,q in self.u2p[k].items()}
        return [m.get(arr[i],-1) for i in range(n.value)]
    def queries(self,ids=True):
        """every upward and lateral adjacency query of every live entity"""
        L=self.L; q={'rep':self.rep}
        n=[self.next[k]-1 for k in range(4)]
        def arr(k): return [[] for _ in range(n[k])]
        def num(k): return [0]*n[k]
        V=self.u2p[0];E=self.u2p[1];F=self.u2p[2];R=self.u2p[3]
        q['VV'],q['VE'],q['VF'],q['VR']=arr(0),arr(0),arr(0),arr(0)
        q['nV']=arr(0)
        for u,p in V.items():
            q['VV'][u-1]=self.uids(0,self.lst(L.MV_AdjVertices(p)))
            q['VE'][u-1]=self.uids(1,self.lst(L.MV_Edges(p)))
            q['VF'][u-1]=self.uids(2,self.lst(L.MV_Faces(p)))
            q['VR'][u-1]=self.uids(3,self.lst(L.MV_Regions(p)))
            q['nV'][u-1]=[L.MV_Num_AdjVertices(p),L.MV_Num_Edges(p),L.MV_Num_Faces(p),L.MV_Num_Regions(p)]
        q['EF'],q['ER'],q['nE']=arr(1),arr(1),arr(1)
        for u,p in E.items():
            q['EF'][u-1]=self.uids(2,self.lst(L.ME_Faces(p)))
            q['ER'][u-1]=self.uids(3,self.lst(L.ME_Regions(p)))
            q['nE'][u-1]=[L.ME_Num_Faces(p),L.ME_Num_Regions(p)]
        q['FV'],q['FR'],q['FS'],q['FF'],q['nF']=arr(2),arr(2),arr(2),arr(2),arr(2)
        for u,p in F.items():
            q['FV'][u-1]=self.uids(0,self.lst(L.MF_Vertices(p,1,None)))
            q['FR'][u-1]=self.uids(3,self.lst(L.MF_Regions(p)))
            q['FS'][u-1]=[self.uid(3,L.MF_Region(p,0)),self.uid(3,L.MF_Region(p,1))]
            q['FF'][u-1]=self.uids(2,self.lst(L.MF_AdjFaces(p)))
            q['nF'][u-1]=[L.MF_Num_Vertices(p),L.MF_Num_Edges(p),L.MF_Num_AdjFaces(p)]
        q['RV'],q['RE'],q['RR'],q['nR']=arr(3),arr(3),arr(3),arr(3)
        for u,p in R.items():
            q['RV'][u-1]=self.uids(0,self.lst(L.MR_Vertices(p)))
            q['RE'][u-1]=self.uids(1,self.lst(L.MR_Edges(p)))
            q['RR'][u-1]=self.uids(3,self.lst(L.MR_AdjRegions(p)))
            q['nR'][u-1]=[L.MR_Num_Vertices(p),L.MR_Num_Edges(p),L.MR_Num_Faces(p)]
        q['ix'],q['id']=[],[]
        for k in range(4):
            at=getattr(L,'MESH_'+NAME[k]); fr=getattr(L,'MESH_%sFromID'%NAME[k]); gid=getattr(L,PFX[k]+'_ID')
            live=self.u2p[k]; cnt=getattr(L,'MESH_Num_'+PL[k])(self.mesh)
            q['ix'].append([self.uid(k,at(self.mesh,i)) for i in range(cnt)])
            kid={gid(p) for p in self.kept[k].values()}
            ids={gid(p) for p in live.values()}
            ask=sorted(ids|(kid-ids)|set(range(0,min(max(ids|{0}),60)+3)))
            q['id'].append([[i,self.uid(k,fr(self.mesh,i))] for i in ask])
        q['by'],q['opp'],q['com'],q['uses']=self.byid(),self.opposites(),self.common(),self.usage()
        q['n']=[L.MESH_Num_Vertices(self.mesh),L.MESH_Num_Edges(self.mesh),L.MESH_Num_Faces(self.mesh),L.MESH_Num_Regions(self.mesh)]
        return q
    def some(self,k,n):
        us=sorted(self.u2p[k]); r=random.Random(1000*(self.log.n if self.log else 0)+10*k+n)
        return r,(us if len(us)<=n else r.sample(us,n))
    def byid(self):
        """adjacency by local ID: [kind, entity, [connected vertices], [edges], [faces], [regions]] for a sample"""
        L=self.L; out=[]
        for u in self.some(0,8)[1]:
            p=self.u2p[0][u]
            out.append([0,u]+[self.idarr(f,p,k) for k,f in enumerate((L.MV_AdjVertexIDs,L.MV_EdgeIDs,L.MV_FaceIDs,L.MV_RegionIDs))])
        for u in self.some(1,8)[1]:
            p=self.u2p[1][u]; m={L.MV_ID(q):v for v,q in self.u2p[0].items()}
            out.append([1,u,[m.get(L.ME_VertexID(p,i),-1) for i in (0,1)],[]]+[self.idarr(f,p,k) for k,f in ((2,L.ME_FaceIDs),(3,L.ME_RegionIDs))])
        return out
    def opposites(self):
        """[edge, vertex of it, the other one, the other one by ID]"""
        L=self.L; out=[]; m={L.MV_ID(q):v for v,q in self.u2p[0].items()}
        for u in self.some(1,8)[1]:
            p=self.u2p[1][u]
            for i in (0,1):
                v=L.ME_Vertex(p,i); out.append([u,self.uid(0,v),self.uid(0,L.ME_OppVertex(p,v)),m.get(L.ME_OppVertexID(p,L.MV_ID(v)),-1)])
        return out
    def usage(self):
        """[kind, entity, kind of another, other, does the first use the second] near each other or not"""
        L=self.L; out=[]; f=[None,L.ME_UsesEntity,L.MF_UsesEntity,L.MR_UsesEntity]
        for k in (1,2,3):
            r,us=self.some(k,4)
            for u in us:
                p=self.u2p[k][u]
                for j in range(k):
                    if not self.u2p[j]: continue
                    get=[[None],[lambda:[L.ME_Vertex(p,0),L.ME_Vertex(p,1)]],[lambda:self.lst(L.MF_Vertices(p,1,None)),lambda:self.lst(L.MF_Edges(p,1,None))],
                         [lambda:[v for q in self.lst(L.MR_Faces(p)) for v in self.lst(L.MF_Vertices(q,1,None))],lambda:[e for q in self.lst(L.MR_Faces(p)) for e in self.lst(L.MF_Edges(q,1,None))],lambda:self.lst(L.MR_Faces(p))]]
                    near=[self.uid(j,q) for q in get[k][j]()]; near=[n for n in near if n>0]
                    for o in ([r.choice(near)] if near else [])+[r.choice(sorted(self.u2p[j]))]:
                        out.append([k,u,j,o,1 if f[k](p,self.u2p[j][o],j) else 0])
        return out
    def common(self):
        """the edge of two vertices, the face of some vertices (next to each other) and the face of some edges"""
        L=self.L; E,F,R2=[],[],[]; r,us=self.some(0,30)
        if len(us)>1:
            for _ in range(6):
                a=r.choice(us); nb=[u for u in self.uids(0,self.lst(L.MV_AdjVertices(self.u2p[0][a]))) if u>0 and u!=a]
                b=r.choice(nb) if nb and r.random()<.7 else r.choice([u for u in us if u!=a])
                E.append([[a,b],self.uid(1,L.MVs_CommonEdge(self.u2p[0][a],self.u2p[0][b]))])
        r,fs=self.some(2,5)
        for f in fs:
            p=self.u2p[2][f]; vs=self.uids(0,self.lst(L.MF_Vertices(p,1,None))); es=self.uids(1,self.lst(L.MF_Edges(p,1,None)))
            if len(set(vs))<3 or min(vs)<1: continue
            k=r.randrange(len(vs)); w=vs[k:]+vs[:k]
            if r.random()<.5: w.reverse()
            if r.random()<.3 and len(us)>len(vs): w[-1]=r.choice([u for u in us if u not in w])
            elif r.random()<.2 and len(w)>3: w.pop(r.randrange(2,len(w)))
            F.append([w,self.uid(2,L.MVs_CommonFace(len(w),ptrs([self.u2p[0][v] for v in w])))])
            x=r.sample(es,r.randint(1,len(es)))
            if r.random()<.3:
                y=r.choice(sorted(self.u2p[1]))
                if y not in x: x.append(y)
            R2.append([x,self.uid(2,L.MEs_CommonFace(len(x),ptrs([self.u2p[1][e] for e in x])))])
        return [E,F,R2]
    def emit(self,op,a=None,r=0,keepdel=(),q=None,extra=None,pre=None):
        self.sync(keepdel)
        rr=r() if callable(r) else r
        rec={'op':op,'a':a or {},'r':rr,'s':self.project()}
        if q if q is not None else self.obs: rec['q']=self.queries()
        if extra: rec.update(extra() if callable(extra) else extra)
        self.snap=rec['s']
        if self.log: self.log.put(rec)
        return rec
    # ---------- construction
    def cls(self,k,p,c):
        if c is None: return
        getattr(self.L,PFX[k]+'_Set_GEntDim')(p,c[0]); getattr(self.L,PFX[k]+'_Set_GEntID')(p,c[1])
    def mkv(self,xyz,c=None):
        p=self.L.MV_New(self.mesh); self.L.MV_Set_Coords(p,dbl([float(x) for x in xyz])); self.cls(0,p,c); return p
    def mke(self,a,b,c=None):
        L=self.L;p=L.ME_New(self.mesh); L.ME_Set_Vertex(p,0,a); L.ME_Set_Vertex(p,1,b); self.cls(1,p,c); return p
    def mkf(self,es,ds,c=None):
        p=self.L.MF_New(self.mesh); self.L.MF_Set_Edges(p,len(es),ptrs(es),ints(ds)); self.cls(2,p,c); return p
    def mkfv(self,vs,c=None):
        p=self.L.MF_New(self.mesh); self.L.MF_Set_Vertices(p,len(vs),ptrs(vs)); self.cls(2,p,c); return p
    def mkr(self,fs,ds,c=None):
        p=self.L.MR_New(self.mesh); self.L.MR_Set_Faces(p,len(fs),ptrs(fs),ints(ds)); self.cls(3,p,c); return p
    def mkrv(self,vs,c=None,tmpl=None):
        p=self.L.MR_New(self.mesh); self.L.MR_Set_Vertices(p,len(vs),ptrs(vs),0,None); self.cls(3,p,c); return p
