"""histories over lists, entity sets and attributes"""
import ctypes as C, random, os
from drv import *
from mstk import *
CMP=C.CFUNCTYPE(C.c_int,C.c_void_p,C.c_void_p)
E2I=C.CFUNCTYPE(C.c_int,C.c_void_p)
def _cmp(a,b):
    x=C.cast(a,C.POINTER(C.c_void_p))[0] or 0; y=C.cast(b,C.POINTER(C.c_void_p))[0] or 0
    return (x>y)-(x<y)
CMPF=CMP(_cmp)
E2IF=E2I(lambda p:(p or 0)//16)
class ListDriver:
    POOL=24
    def __init__(self,L,log,rng,big=False):
        self.L=L;self.log=log;self.rng=rng;self.ls={};self.its={};self.big=big
        self.put('reset',{},0)
    def P(self,v): return v*16 if v else None
    def V(self,p): return (p or 0)//16
    def content(self,n): 
        l=self.ls[n]; return [self.V(self.L.List_Entry(l,i)) for i in range(self.L.List_Num_Entries(l))]
    def obs(self,l):
        L=self.L; n=L.List_Num_Entries(l)
        idx=C.c_int(0); walk=[]
        while True:
            p=L.List_Next_Entry(l,C.byref(idx))
            if not p: break
            walk.append(self.V(p))
            if len(walk)>5000: break
        raw=[self.V(L.List_Entry_Raw(l,i)) for i in range(L.List_Size_Raw(l))]
        return dict(n=n,ent=[self.V(L.List_Entry(l,i)) for i in range(n+1)],walk=walk,raw=raw,
            loc=[L.List_Locate(l,self.P(v)) for v in range(1,self.POOL+1)],con=[L.List_Contains(l,self.P(v)) for v in range(1,self.POOL+1)])
    def put(self,op,a,r):
        mx=max(self.ls) if self.ls else 0
        self.log.put({'op':op,'a':a,'r':r,'s':[self.obs(self.ls[i]) if i in self.ls else {} for i in range(1,mx+1)]})
    def gaps(self,l): return self.L.List_Size_Raw(l)!=self.L.List_Num_Entries(l)
    def step(self,op=None):
        L,r=self.L,self.rng
        if not self.ls or (len(self.ls)<3 and r.random()<.1):
            n=min(i for i in range(1,9) if i not in self.ls)
            self.ls[n]=L.List_New(r.choice([0,1,2,3,4,7,8,15,20,31])); self.put('new',{'l':n},0); return
        n=r.choice(list(self.ls)); l=self.ls[n]; c=self.content(n); k=len(c)
        v=r.randint(1,self.POOL); i=r.randrange(k) if k else 0
        op=op or r.choices(['add','chknadd','insert','inserti','rem','remi','remraw','remsorted','replace','replacei','cat','copy','compress','sort','search','iter','next','delete'],
                     [8,4,4,4,6,6,3,3,4,4,1.5,1,2,1.5,2,2,8,.5])[0]
        a={'l':n,'v':v}
        if op in('add','chknadd'):
            if k>70: return
            for _ in range(r.choice([1,1,1,5]) if not self.big else r.choice([1,9])):
                v=r.randint(1,self.POOL); self.ls[n]=getattr(L,'List_Add' if op=='add' else 'List_ChknAdd')(l,self.P(v)); self.put(op,{'l':n,'v':v},0)
            return
        if op=='insert':
            if k>70: return
            b=r.choice(c) if c and r.random()<.8 else r.choice([0,r.randint(1,self.POOL)])
            L.List_Insert(l,self.P(v),self.P(b)); return self.put(op,{'l':n,'v':v,'b':b},0)
        if op=='inserti':
            if k>70: return
            i=r.randint(0,k); L.List_Inserti(l,self.P(v),i); return self.put(op,{'l':n,'v':v,'i':i},0)
        if op=='rem':
            if c and r.random()<.8: v=r.choice(c)
            return self.put(op,{'l':n,'v':v},L.List_Rem(l,self.P(v))) 
        if op=='remi':
            if r.random()<.1: i=k+r.randint(0,2)
            return self.put(op,{'l':n,'i':i},L.List_Remi(l,i))
        if op=='remraw':
            z=L.List_Size_Raw(l)
            if not z: return
            i=r.randrange(z); raw=[self.V(L.List_Entry_Raw(l,j)) for j in range(z)]
            rank=sum(1 for x in raw[:i+1] if x) if raw[i] else 0
            return self.put(op,{'l':n,'rank':rank},L.List_Remi_Raw(l,i))
        if op=='remsorted':
            if c!=sorted(set(c)) or not c:
                if r.random()<.5 and not self.gaps(l) and c and len(set(c))==len(c): op='sort'
                elif r.random()<.4 and len(self.ls)<8 :
                    n=min(i for i in range(1,9) if i not in self.ls); self.ls[n]=l=L.List_New(0); self.put('new',{'l':n},0)
                    for v in sorted(r.sample(range(1,self.POOL+1),r.randint(3,15))): L.List_Add(l,self.P(v)); self.put('add',{'l':n,'v':v},0)
                    for _ in range(r.randint(1,6)): self.rs(n)
                    return
                else: return
            else:
                for _ in range(r.randint(1,3)): self.rs(n)
                return
        if op=='sort':
            if self.gaps(l) or not k: return
            L.List_Sort(l,k,8,CMPF); return self.put('sort',{'l':n},0)
        if op=='search':
            if self.gaps(l) or c!=sorted(c) or not k: return
            key=(C.c_void_p*1)(self.P(v)); return self.put(op,{'l':n,'v':v},self.V(L.List_Search(l,C.cast(key,C.c_void_p),k,8,CMPF)))
        if op=='replace':
            if c and r.random()<.8: v=r.choice(c)
            w=r.randint(1,self.POOL); return self.put(op,{'l':n,'v':v,'w':w},L.List_Replace(l,self.P(v),self.P(w)))
        if op=='replacei':
            if not k: return
            w=r.randint(1,self.POOL); return self.put(op,{'l':n,'i':i,'w':w},L.List_Replacei(l,i,self.P(w)))
        if op=='cat':
            m=r.choice(list(self.ls))
            if m==n or k+len(self.content(m))>90: return
            L.List_Cat(l,self.ls[m]); return self.put(op,{'l':n,'src':m},0)
        if op=='copy':
            if len(self.ls)>=4: return
            m=min(i for i in range(1,9) if i not in self.ls); self.ls[m]=L.List_Copy(l); return self.put(op,{'l':m,'src':n},0)
        if op=='compress':
            L.List_Compress(l); self.drop(n); return self.put(op,{'l':n},0)
        if op=='delete':
            if len(self.ls)<2: return
            L.List_Delete(l); del self.ls[n]; self.drop(n); return self.put(op,{'l':n},0)
        if op=='iter':
            j=r.randint(1,2); self.its[j]=(n,C.c_int(0)); return self.put(op,{'l':n,'i':j},0)
        if op=='next':
            if not self.its: return
            j=r.choice(list(self.its)); n,idx=self.its[j]
            x=self.V(L.List_Next_Entry(self.ls[n],C.byref(idx))); self.put(op,{'l':n,'i':j},x)
            if x==0: del self.its[j]; return
            if r.random()<.6:      # change the list in the middle of the iteration
                c=self.content(n); y=r.choice([x]+c) if c else 0
                if c and r.random()<.6 and y in c: self.put('rem',{'l':n,'v':y},L.List_Rem(self.ls[n],self.P(y)))
                elif len(c)<60: v=r.randint(1,self.POOL); L.List_Add(self.ls[n],self.P(v)); self.put('add',{'l':n,'v':v},0)
            return
    def rs(self,n):
        c=self.content(n)
        if not c: return
        v=self.rng.choice(c) if self.rng.random()<.75 else self.rng.randint(1,self.POOL)
        self.put('remsorted',{'l':n,'v':v},self.L.List_RemSorted(self.ls[n],self.P(v),E2IF))
    def drop(self,n): self.its={j:x for j,x in self.its.items() if x[0]!=n}
def lists(L,log,rng,count):
    while log.n<count:
        D=ListDriver(L,log,rng,rng.random()<.3)
        for _ in range(rng.randint(60,150)):
            D.step()
            # an operation that moves entries invalidates running iterations: stop using them
            if log.last in('insert','inserti','compress','sort'): D.its={}
            if log.n>=count: break
        for l in D.ls.values(): L.List_Delete(l)

# ------------------------------------------------------------------ entity sets
import gens, meshes
def small_mesh(L,rng,log=None,glue=False):
    """a small mesh; with glue: two copies of the cells that share no vertices but coincide on one side"""
    S=Session(L,F1,None)
    g=meshes.shuffle(rng.choice([meshes.tris(2,2,rng),meshes.quads(2,1),meshes.tets2face(),meshes.tets5(),meshes.hexes(2,1,1)]),rng)
    gens.Builder(S,g,rng,'edges',rng.choice(['flat','model'])).build(); S.emit('init',q=False)
    return S
class SetDriver:
    NAMES=['a','b','set_1','set_2','side','aa']
    def __init__(self,L,log,rng):
        self.L=L;self.log=log;self.rng=rng
        self.S=small_mesh(L,rng); self.mesh=self.S.mesh
        self.h={}; self.nh=0
        self.pool=[]
        for k in range(4):
            us=list(self.S.u2p[k]); rng.shuffle(us)
            for u in us[:8]: self.pool.append((k,u,self.S.u2p[k][u]))
        self.alive=True
        self.put('reset',{},0)
    def code(self,p):
        if not p: return 0
        for k in range(4):
            for mp in (self.S.u2p[k],):
                pass
            u=self.S.p2u[k].get(p)
            if u: return u*4+k
        return -1
    def reg(self,p):
        self.nh+=1; self.h[self.nh]=p; return self.nh
    def hof(self,p):
        if not p: return 0
        for h,q in self.h.items():
            if q==p: return h
        return -1
    def members(self,p): return [self.L.MSet_Entry(p,i) for i in range(self.L.MSet_Num_Entries(p))]
    def obs(self):
        L=self.L;m=self.mesh
        n=L.MESH_Num_MSets(m); order=[self.hof(L.MESH_MSet(m,i)) for i in range(n)]
        idx=C.c_int(0);walk=[]
        while True:
            p=L.MESH_Next_MSet(m,C.byref(idx))
            if not p: break
            walk.append(self.hof(p))
            if len(walk)>500: break
        sets=[]
        for h in self.h:
            p=self.h[h]; b=C.create_string_buffer(600)
            L.MSet_Name(p,b)
            k=L.MSet_Num_Entries(p); ix=C.c_int(0); w=[]
            while True:
                e=L.MSet_Next_Entry(p,C.byref(ix))
                if not e: break
                w.append(self.code(e))
                if len(w)>500: break
            sets.append(dict(h=h,n=b.value.decode(),d=L.MSet_EntDim(p),k=k,ent=[self.code(L.MSet_Entry(p,i)) for i in range(k+1)],walk=w,
                q=[[u*4+kk,L.MSet_Contains(p,q),L.MSet_Locate(p,q)] for kk,u,q in self.pool]))
        names=set(self.NAMES)|{'in_a_or_b','nosuch'}|{s['n'] for s in sets}
        return dict(n=n,order=order,walk=walk,sets=sets,by=[[x,self.hof(L.MESH_MSetByName(m,x.encode()))] for x in sorted(names)])
    def put(self,op,a,r): self.log.put({'op':op,'a':a,'r':r,'s':self.obs()})
    def pick(self,d):
        c=[x for x in self.pool if d==5 or x[0]==d]
        return self.rng.choice(c) if c else None
    def step(self):
        L,r=self.L,self.rng
        if not self.h or (len(self.h)<5 and r.random()<.12):
            nm=r.choice(self.NAMES); d=r.choice([0,1,2,3,5,0,2])
            p=L.MSet_New(self.mesh,nm.encode(),d); h=self.reg(p); self.put('new',{'h':h,'n':nm,'d':d},0); return
        h=r.choice(list(self.h)); p=self.h[h]; d=L.MSet_EntDim(p); mem=self.members(p); k=len(mem)
        op=r.choices(['add','chknadd','insert','inserti','rem','remi','replace','replacei','copy','delete','rename','union','intersect','subtract','merge','cat'],
                     [7,4,3,3,4,3,3,2,1,.7,1,2,3,3,4,1.5])[0]
        x=self.pick(d)
        if x is None: return
        v=x[1]*4+x[0]; q=x[2]
        if op in('add','insert','inserti') and q in mem: op='chknadd'      # sets: no second copy
        if op in('add','chknadd'):
            return self.put(op,{'h':h,'v':v},self.hof(getattr(L,'MSet_Add' if op=='add' else 'MSet_ChknAdd')(p,q)))
        if op=='insert':
            b=r.choice(mem) if mem and r.random()<.8 else 0
            return self.put(op,{'h':h,'v':v,'b':self.code(b)},self.hof(L.MSet_Insert(p,q,b or None)))
        if op=='inserti':
            i=r.randint(0,k); return self.put(op,{'h':h,'v':v,'i':i},self.hof(L.MSet_Inserti(p,q,i)))
        if op=='rem':
            if mem and r.random()<.8: q=r.choice(mem)
            return self.put(op,{'h':h,'v':self.code(q)},L.MSet_Rem(p,q))
        if op=='remi':
            if not mem: return
            i=r.randrange(k); return self.put(op,{'h':h,'i':i},L.MSet_Remi(p,i))
        if op in('replace','replacei'):
            y=self.pick(d)
            if not mem or y[2] in mem: return
            w=y[1]*4+y[0]
            if op=='replace':
                q=r.choice(mem); return self.put(op,{'h':h,'v':self.code(q),'w':w},L.MSet_Replace(p,q,y[2]))
            i=r.randrange(k); return self.put(op,{'h':h,'i':i,'w':w},L.MSet_Replacei(p,i,y[2]))
        if op=='copy':
            if len(self.h)>=7: return
            n=L.MSet_Copy(p); g=self.reg(n); return self.put(op,{'h':g,'p':h},0)
        if op=='delete':
            L.MSet_Delete(p); del self.h[h]; return self.put(op,{'h':h},0)
        if op=='rename':
            nm=r.choice(self.NAMES+['a_much_longer_set_name_than_before_%d'%r.randint(0,99)])
            L.MSet_Rename(p,nm.encode()); return self.put(op,{'h':h,'n':nm},0)
        if op=='cat':            # sets: only what the first one does not hold yet, of the same kind of entity
            c=[g for g in self.h if g!=h and L.MSet_EntDim(self.h[g])==d and not set(mem)&set(self.members(self.h[g]))]
            if not c: return
            g=r.choice(c); return self.put('cat',{'h':h,'g':g},self.hof(L.MSet_Cat(p,self.h[g])))
        if op in('union','intersect','subtract'):
            if len(self.h)>=8: 
                L.MSet_Delete(p); del self.h[h]; return self.put('delete',{'h':h},0)
            g=r.choice(list(self.h))
            b=C.create_string_buffer(600); ln=0
            for y in (p,self.h[g]): L.MSet_Name(y,b); ln+=len(b.value)
            if ln>200: return                      # names are limited to 255 characters
            n=getattr(L,{'union':'MSets_Union','intersect':'MSets_Intersect','subtract':'MSets_Subtract'}[op])(p,self.h[g])
            z=0;e=[];nm=''
            if n:
                z=self.reg(n); b=C.create_string_buffer(600); L.MSet_Name(n,b); nm=b.value.decode(); e=[self.code(y) for y in self.members(n)]
            return self.put(op,{'p':h,'q':g,'e':e,'n':nm},z)
        if op=='merge': return self.merge()
    def resync(self):
        old=[dict(m) for m in self.S.p2u]; self.S.sync()
        for k in range(4):
            for p,u in old[k].items(): self.S.p2u[k].setdefault(p,u)     # merged-away entities are kept, not freed
    def merge(self):
        """merge entities that coincide, or collapse an edge of the mesh"""
        L,r,S=self.L,self.rng,self.S
        if not hasattr(self,'twins'): self.twins=[]
        kind=r.random()
        if kind<.4:
            # a duplicate of some vertex / edge / face is created and merged away
            k=r.choice([0,1,2]); c=[x for x in self.pool if x[0]==k]
            if not c: return
            _,u,p=r.choice(c)
            if k==0:
                a=(C.c_double*3)(); L.MV_Coords(p,a); t=S.mkv(list(a),[L.MV_GEntDim(p),L.MV_GEntID(p)])
            elif k==1: t=S.mke(L.ME_Vertex(p,0),L.ME_Vertex(p,1),[L.ME_GEntDim(p),L.ME_GEntID(p)])
            else:
                if L.MF_Num_Edges(p)==0: return
                el=S.lst(L.MF_Edges(p,1,None)); t=S.mkf(el,[L.MF_EdgeDir_i(p,i) for i in range(len(el))],[L.MF_GEntDim(p),L.MF_GEntID(p)])
            self.resync(); self.pool.append((k,S.uid(k,t),t)); self.twins.append((k,p,t))
            self.put('noop',{},0)
            # usually both of them end up in some set, in either order
            for h in list(self.h):
                q=self.h[h]; d=L.MSet_EntDim(q)
                if d in(5,k) and r.random()<.6:
                    w=[p,t]; r.shuffle(w)
                    for y in w:
                        if y not in self.members(q): self.put('add',{'h':h,'v':self.code(y)},self.hof(L.MSet_Add(q,y)))
            return
        if kind<.8 and self.twins:
            k,p,t=self.twins.pop(r.randrange(len(self.twins)))
            if not any(x[2]==p for x in self.pool) or not any(x[2]==t for x in self.pool): return
            keep,dead=(p,t) if r.random()<.5 else (t,p)
            cd,ck=self.code(dead),self.code(keep)
            fn=[L.MVs_Merge,L.MEs_Merge,L.MFs_Merge][k]
            x=fn(keep,dead,r.choice([0,1]))
            self.pool=[q for q in self.pool if q[2]!=dead]
            self.put('subst',{'pairs':[[cd,ck]]},1 if x==keep else 0)
            return
        if kind>=.8 and not self.twins:
            self.resync(); S.snap=S.project(); w=gens.View(S.snap)
            c=[e for e in w.E if w.linkok(e)]
            if not c: return
            e=r.choice(c); dl=C.c_void_p(0); mg=C.c_void_p(0)
            x=L.ME_Collapse(S.u2p[1][e],None,0,C.byref(dl),C.byref(mg))
            if not x: return
            m=S.lst(mg.value); S.lst(dl.value)
            pairs=[[self.code(m[i]),self.code(m[i+1])] for i in range(0,len(m)-1,2)]
            self.put('subst',{'pairs':pairs},1)
            live={p for k in range(4) for p in S.iter(k)}
            inset={y for h in self.h.values() for y in self.members(h)}
            self.pool=[q for q in self.pool if q[2] in live]
            # keep identities of deleted members known
            for k in range(4):
                for u,p in list(S.u2p[k].items()):
                    if p not in live: del S.u2p[k][u]
def sets(L,log,rng,count):
    while log.n<count:
        D=SetDriver(L,log,rng)
        for _ in range(rng.randint(40,100)):
            D.step()
            if log.n>=count: break
        L.MESH_Delete(D.mesh) if rng.random()<.2 else None

# ------------------------------------------------------------------ attributes
class AttrDriver:
    NAMES=['temp','vel','x','stress_tensor','temp2']
    def __init__(self,L,log,rng):
        self.L=L;self.log=log;self.rng=rng;self.S=small_mesh(L,rng);self.mesh=self.S.mesh
        self.h={};self.nh=0;self.buf=[]
        self.narrow=rng.random()<.5     # few entities, each holding many values
        self.ents={}; self.cap=rng.choice([9,14,16]) if self.narrow else 5
        for k in range(4):
            us=list(self.S.u2p[k]); rng.shuffle(us)
            for u in us[:rng.randint(2,5) if not self.narrow else rng.randint(0,2 if len(self.ents)<2 else 0)]: self.ents[u*4+k]=(k,self.S.u2p[k][u])
        self.kept=set(); self.nd=rng.choice([0,1,2]); self.boost=0; self.done=set()
        self.put('reset',{},0)
    def hof(self,p):
        if not p: return 0
        for h,q in self.h.items():
            if q[0]==p: return h
        return -1
    def ok(self,h,e): d=self.h[h][2]; return d==5 or d==e%4
    def read(self,h,e):
        L=self.L;p,t,d,c=self.h[h];ent=self.ents[e][1]
        iv=C.c_int(-7);lv=C.c_double(-7);pv=C.c_void_p(0)
        st=L.MEnt_Get_AttVal(ent,p,C.byref(iv),C.byref(lv),C.byref(pv))
        def vec(x): return [] if not x else [int(round(y*8)) for y in (C.c_double*c).from_address(x)]
        if t==INT: v=[iv.value]; w=[L.MEnt_Get_IntAttVal(ent,p)]
        elif t==DOUBLE: v=[int(round(lv.value*8))]; w=[int(round(L.MEnt_Get_DblAttVal(ent,p)*8))]
        elif t==POINTER: v=[pv.value//16] if pv.value else []; z=L.MEnt_Get_PtrAttVal(ent,p); w=[z//16] if z else []
        elif t==VECTOR: v=vec(pv.value); w=vec(L.MEnt_Get_VecAttVal(ent,p))
        else: v=vec(pv.value); w=vec(L.MEnt_Get_TnsrAttVal(ent,p))
        return [h,e,st,v,w]
    def obs(self):
        L=self.L;m=self.mesh
        n=L.MESH_Num_Attribs(m); order=[self.hof(L.MESH_Attrib(m,i)) for i in range(n)]
        idx=C.c_int(0);walk=[]
        while True:
            p=L.MESH_Next_Attrib(m,C.byref(idx))
            if not p: break
            walk.append(self.hof(p))
            if len(walk)>100: break
        defs=[];
        for h,(p,t,d,c) in self.h.items():
            b=C.create_string_buffer(300); L.MAttrib_Get_Name(p,b)
            defs.append(dict(h=h,n=b.value.decode(),t=L.MAttrib_Get_Type(p),d=L.MAttrib_Get_EntDim(p),c=L.MAttrib_Get_NumComps(p)))
        vals=[self.read(h,e) for h in self.h for e in self.ents if self.ok(h,e)]
        names=set(self.NAMES)|{'tem','nosuch'}
        return dict(n=n,order=order,walk=walk,defs=defs,vals=vals,by=[[x,self.hof(L.MESH_AttribByName(m,x.encode()))] for x in sorted(names)])
    def put(self,op,a,r): self.log.put({'op':op,'a':a,'r':r,'s':self.obs()})
    def step(self):
        L,r=self.L,self.rng
        if not self.h or (len(self.h)<self.cap and r.random()<(.4 if self.narrow else .12)):
            nm=r.choice(self.NAMES); t=r.choice([INT,DOUBLE,POINTER,VECTOR,TENSOR]); d=r.choice([0,1,2,3,5]) if not self.narrow else r.choice([5,5,self.nd]); c=1 if t in(INT,DOUBLE,POINTER) else r.choice([1,2,3,6,9])
            p=L.MAttrib_New(self.mesh,nm.encode(),t,d,c); self.nh+=1; self.h[self.nh]=(p,t,d,c)
            return self.put('new',{'h':self.nh,'n':nm,'t':t,'d':d,'c':c},0)
        h=r.choice(list(self.h)); p,t,d,c=self.h[h]
        es=[e for e in self.ents if self.ok(h,e)]
        op=r.choices(['set','rem','clear','clearall','remall','scribble','delete','del','restore','destroy','edit'],[16,3,2,.7,.7,2,.5,1,2,.4,1] if self.boost<=0 else [1]+[0]*10)[0]
        if op in('set','rem','clear') and not es: return
        e=r.choice(es) if es else None
        if op=='set' and self.boost>0:
            un=[(h2,e2) for h2 in self.h for e2 in self.ents if self.ok(h2,e2) and (h2,e2) not in self.done]
            if un: h,e=r.choice(un); p,t,d,c=self.h[h]
        self.done.add((h,e))
        if op=='set':
            ent=self.ents[e][1]; gen=r.random()<.5
            if t==INT:
                v=r.choice([0,1,-1,r.randint(-10**6,10**6)])
                L.MEnt_Set_AttVal(ent,p,v,9.25,None) if gen else L.MEnt_Set_IntAttVal(ent,p,v); val=[v]
            elif t==DOUBLE:
                v=r.randint(-10**6,10**6)
                L.MEnt_Set_AttVal(ent,p,77,v/8,None) if gen else L.MEnt_Set_DblAttVal(ent,p,v/8); val=[v]
            elif t==POINTER:
                v=r.randint(1,10**6)
                L.MEnt_Set_AttVal(ent,p,77,.5,v*16) if gen else L.MEnt_Set_PtrAttVal(ent,p,v*16); val=[v]
            else:
                val=[r.randint(-10**6,10**6) for _ in range(c)]; b=dbl([x/8 for x in val]); self.buf.append(b)
                if gen: L.MEnt_Set_AttVal(ent,p,0,0.,C.addressof(b))
                elif t==VECTOR: L.MEnt_Set_VecAttVal(ent,p,b)
                else: L.MEnt_Set_TnsrAttVal(ent,p,b)
            return self.put('set',{'h':h,'e':e,'v':val},0)
        if op=='rem': L.MEnt_Rem_AttVal(self.ents[e][1],p); return self.put(op,{'h':h,'e':e},0)
        if op=='clear': L.MEnt_Clear_AttVal(self.ents[e][1],p); return self.put(op,{'h':h,'e':e},0)
        if op=='clearall': L.MAttrib_Clear(p); return self.put(op,{'h':h,'live':[x for x in self.ents if x not in self.kept]},0)
        if op=='remall':
            if not self.ents: return
            e=r.choice(list(self.ents)); L.MEnt_Rem_AllAttVals(self.ents[e][1]); return self.put(op,{'e':e},0)
        if op=='scribble':
            for b in self.buf:
                for i in range(len(b)): b[i]=-99.
            self.buf=[]; return self.put(op,{},0)
        if op=='delete':
            if self.kept: return
            L.MAttrib_Delete(p); del self.h[h]; return self.put(op,{'h':h},0)
        S=self.S
        if op=='del':      # delete an unused entity but keep it
            S.sync(); S.snap=S.project(); w=gens.View(S.snap)
            un=[(k,u) for k,u in gens.Editor(S,r).unused(w) if u*4+k in self.ents]
            if not un: return
            k,u=r.choice(un); getattr(L,PFX[k]+'_Delete')(S.u2p[k][u],1); S.sync([(k,u)]); self.kept.add(u*4+k); return self.put('del',{},0)
        if op=='restore':
            if not self.kept: return
            # restore the highest-dimensional last deleted first so that its parts exist
            e=min(self.kept,key=lambda e:e%4); k,p_=self.ents[e]; getattr(L,PFX[k]+'_Restore')(p_); self.kept.discard(e); S.sync(); return self.put('restore',{},0)
        if op=='destroy':
            if self.kept: return
            S.sync(); S.snap=S.project(); w=gens.View(S.snap)
            un=[(k,u) for k,u in gens.Editor(S,r).unused(w)]
            if not un: return
            k,u=r.choice(un); e=u*4+k; getattr(L,PFX[k]+'_Delete')(S.u2p[k][u],0); S.sync()
            self.ents.pop(e,None); return self.put('destroy',{'es':[e]},0)
        if op=='edit':     # values of the other entities survive structural edits elsewhere
            if self.kept: return
            S.sync(); S.snap=S.project(); w=gens.View(S.snap)
            f=[x for x in w.F if x*4+2 not in self.ents]
            if not f: return
            x=r.choice(f); L.MF_Split(S.u2p[2][x],None if False else dbl([.1,.2,.3])); S.sync(); 
            gone=[e for e in self.ents if e//4 not in S.u2p[e%4]]
            for e in gone: self.ents.pop(e)
            return self.put('destroy',{'es':gone},0)
def attrs(L,log,rng,count):
    while log.n<count:
        D=AttrDriver(L,log,rng)
        D.boost=rng.randint(20,70) if D.narrow else 0    # begin by attaching many values
        for _ in range(rng.randint(40,90)+D.boost):
            D.step(); D.boost-=1
            if log.n>=count: break
