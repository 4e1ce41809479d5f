"""whole-mesh transformations: copy, native and foreign files, generation, conversion, renumbering, graphs.
Entities of a mesh are numbered by iteration order; the driver proposes a correspondence between the two meshes
(from coordinates and connectivity) and the specification decides whether it is one."""
import ctypes as C, os, random
from drv import *
from mstk import *
import gens, meshes
from gens import Builder, Editor, View

def walk(L,m,k):
    f=getattr(L,'MESH_Next_'+NAME[k]); idx=C.c_int(0); out=[]
    while True:
        p=f(m,C.byref(idx))
        if not p: return out
        out.append(p)
        if len(out)>300000: raise RuntimeError('endless iteration')
def lst(L,l):
    if not l: return []
    out=[L.List_Entry(l,i) for i in range(L.List_Num_Entries(l))]
    L.List_Delete(l); return out
def fnum(x): return repr(x+0.0) if x==x else 'nan'
class Proj:
    """snapshot of everything observable of a mesh"""
    def __init__(self,L,m,scale=0,full=True,gid=False):
        self.L=L;self.m=m
        self.ent=[walk(L,m,k) for k in range(4)]
        self.ix=[{p:i+1 for i,p in enumerate(e)} for e in self.ent]
        s={}
        xyz=(C.c_double*3)()
        V=[];self.xyz=[]
        for p in self.ent[0]:
            L.MV_Coords(p,xyz); t=tuple(xyz); self.xyz.append(t)
            V.append([int(round(x*scale)) for x in t] if scale else [fnum(x) for x in t])
        s['V']=V
        s['E']=[[self.ix[0].get(L.ME_Vertex(p,i),0) for i in (0,1)] for p in self.ent[1]]
        F=[]
        for p in self.ent[2]:
            es=lst(L,L.MF_Edges(p,1,None)); F.append([[self.ix[1].get(e,0),L.MF_EdgeDir_i(p,i)] for i,e in enumerate(es)])
        s['F']=F
        s['R']=[[[self.ix[2].get(f,0),L.MR_FaceDir_i(p,i)] for i,f in enumerate(lst(L,L.MR_Faces(p)))] for p in self.ent[3]]
        for k in range(4):
            s['C'+KINDS[k]]=[[getattr(L,PFX[k]+'_GEntDim')(p),getattr(L,PFX[k]+'_GEntID')(p)] for p in self.ent[k]]
            s['I'+KINDS[k]]=[getattr(L,PFX[k]+'_ID')(p) for p in self.ent[k]]
            if gid: s['G'+KINDS[k]]=[getattr(L,PFX[k]+'_GlobalID')(p) for p in self.ent[k]]
        s['n']=[getattr(L,'MESH_Num_'+PL[k])(m) for k in range(4)]
        self.s=s
        if full: s['at']=self.atts(); s['st']=self.sets()
    def look(self,extra=3):
        """lookup by identifier: [id, position] per dimension"""
        L=self.L; out=[]
        for k in range(4):
            ids=[getattr(L,PFX[k]+'_ID')(p) for p in self.ent[k]]
            fr=getattr(L,'MESH_%sFromID'%NAME[k])
            ask=sorted(set(ids)|set(range(0,min(max(ids+[0]),400)+extra)))
            out.append([[i,self.ix[k].get(fr(self.m,i),0)] for i in ask])
        return out
    def atts(self):
        L=self.L; out=[]
        for i in range(L.MESH_Num_Attribs(self.m)):
            a=L.MESH_Attrib(self.m,i); b=C.create_string_buffer(300); L.MAttrib_Get_Name(a,b)
            t=L.MAttrib_Get_Type(a); d=L.MAttrib_Get_EntDim(a); c=L.MAttrib_Get_NumComps(a)
            v=[]
            for k in range(4):
                if d not in(k,5): continue
                for u,p in enumerate(self.ent[k]):
                    iv=C.c_int(0);rv=C.c_double(0);pv=C.c_void_p(0)
                    st=L.MEnt_Get_AttVal(p,a,C.byref(iv),C.byref(rv),C.byref(pv))
                    if t==INT:
                        if iv.value: v.append([k,u+1,[str(iv.value)]])
                    elif t==DOUBLE:
                        if rv.value: v.append([k,u+1,[fnum(rv.value)]])
                    elif t==POINTER:
                        if pv.value: v.append([k,u+1,[str(pv.value)]])
                    elif pv.value: v.append([k,u+1,[fnum(x) for x in (C.c_double*c).from_address(pv.value)]])
            out.append(dict(n=b.value.decode('latin1'),t=t,d=d,c=c,v=v))
        return out
    def sets(self):
        L=self.L; out=[]; idx=C.c_int(0)
        while True:
            h=L.MESH_Next_MSet(self.m,C.byref(idx))
            if not h: return out
            b=C.create_string_buffer(300); L.MSet_Name(h,b)
            e=[]
            for i in range(L.MSet_Num_Entries(h)):
                p=L.MSet_Entry(h,i)
                e.append(next(([k,self.ix[k][p]] for k in range(4) if p in self.ix[k]),[9,0]))
            out.append(dict(n=b.value.decode('latin1'),d=L.MSet_EntDim(h),e=e))
    def fvs(self,i):
        E=self.s['E']
        return [E[e-1][0] if d else E[e-1][1] for e,d in self.s['F'][i]]

def witness(A,B):
    """correspondence A->B by coordinates, then by what entities are made of"""
    sa,sb=A.s,B.s; w={}
    def bucket(keys):
        m={}
        for i,k in enumerate(keys): m.setdefault(k,[]).append(i+1)
        return m
    def match(ka,kb):
        m=bucket(kb); out=[]
        for i,k in enumerate(ka):
            c=m.get(k)
            if not c: out.append(0); continue
            out.append(c.pop(0) if len(c)>1 else c[0])
        return out
    w['V']=match([tuple(x) for x in sa['V']],[tuple(x) for x in sb['V']])
    wv=[0]+w['V']
    w['E']=match([frozenset(wv[v] for v in e) for e in sa['E']],[frozenset(e) for e in sb['E']])
    we=[0]+w['E']
    w['F']=match([frozenset(we[e] for e,d in f) for f in sa['F']],[frozenset(e for e,d in f) for f in sb['F']])
    wf=[0]+w['F']
    w['R']=match([frozenset(wf[f] for f,d in r) for r in sa['R']],[frozenset(f for f,d in r) for r in sb['R']])
    return w
def pwitness(A,B):
    """the same objects"""
    return {KINDS[k]:[B.ix[k].get(p,0) for p in A.ent[k]] for k in range(4)}

# ------------------------------------------------------------------ source meshes
class Src:
    def __init__(self,L,rng,g=None,rep=F1,edit=.5,jiggle=True,cls=None,atts=True,sets=True,way=None,maxv=60,weights=None,mid=False):
        self.L=L;self.rng=rng;self.mid=mid
        g=g or (meshes.rand2(rng) if rng.random()<.5 else meshes.rand3(rng,rng.random()<.4))
        self.g=meshes.shuffle(g,rng)
        self.S=Session(L,rep,None,obs=False)
        cls=cls or rng.choice(['flat','box','model','none'])
        if cls=='box' and not self.g.box: cls='model'
        Builder(self.S,self.g,rng,way or rng.choice(['edges','verts','edges']),cls).build()
        self.S.emit('init'); self.S.log=None
        self.mesh=self.S.mesh
        if rng.random()<edit: self.edits(rng.randint(1,6),weights,maxv)
        if jiggle:
            self.S.sync()
            for p in self.S.u2p[0].values(): L.MV_Set_Coords(p,dbl([self.num() for _ in range(3)]))
        self.keep=[]
        self.ats=[];
        if atts: self.attrs()
        if sets: self.msets()
    def num(self):
        r=self.rng; m=r.random()
        if m<.3: return r.randint(-900,900)+r.randint(0,1023)/1024
        if m<.7: return r.uniform(-10,10)
        if m<.8: return r.uniform(-1,1)*10**r.randint(-12,12)
        if m<.9: return float(r.randint(-10**9,10**9))
        return r.choice([0.,1.,-1.,1/3,.1,1e-17,123456789.123456789])
    def edits(self,n,weights=None,maxv=60):
        S=self.S; S.sync(); S.snap=S.project()
        ed=Editor(S,self.rng,maxv); ed.mid=self.mid
        for _ in range(n):
            ed.step(weights or dict(split=3,fsplit=2,fsplite=2,joinf=1,joinr=1,swap=1,**{'del':3},newv=1,renum=.3))
            if any(S.kept): ed.purge()
        S.sync()
    def value(self,t,c):
        r=self.rng
        if t==INT: return r.choice([1,-1,7,r.randint(-2**31+1,2**31-1)])
        if t==DOUBLE: return self.num() or 2.5
        return [self.num() for _ in range(c)]
    def setval(self,ent,a,t,c):
        L=self.L; v=self.value(t,c)
        if t==INT: L.MEnt_Set_AttVal(ent,a,v,0.,None)
        elif t==DOUBLE: L.MEnt_Set_AttVal(ent,a,0,v,None)
        elif t==POINTER: L.MEnt_Set_AttVal(ent,a,0,0.,4096)
        else:
            b=dbl(v); self.keep.append(b); L.MEnt_Set_AttVal(ent,a,0,0.,C.addressof(b))
    def attrs(self,n=None,types=(INT,DOUBLE,VECTOR,TENSOR,POINTER),dims=(0,1,2,3,5),maxc=9):
        L,r=self.L,self.rng
        for i in range(r.randint(0,4) if n is None else n):
            t=r.choice(types); d=r.choice(dims); c=r.randint(1,maxc) if t in(VECTOR,TENSOR) else 1
            nm='att%d_%s'%(len(self.ats),r.choice(['a','temperature','x'*30,'vel']))
            a=L.MAttrib_New(self.mesh,nm.encode(),t,d,c); self.ats.append((a,t,d,c))
            fill=r.choice([0,.1,.5,1,1])
            for k in range(4):
                if d not in(k,5): continue
                for p in walk(L,self.mesh,k):
                    if r.random()<fill: self.setval(p,a,t,c)
            if t==POINTER: continue
        return self.ats
    def msets(self,n=None,dims=(0,1,2,3,5),prefix='set'):
        L,r=self.L,self.rng
        for i in range(r.randint(0,4) if n is None else n):
            d=r.choice(dims)
            h=L.MSet_New(self.mesh,('%s%d_%s'%(prefix,i,r.choice(['left','q','y'*40]))).encode(),d)
            pool=[p for k in range(4) if d in(k,5) for p in walk(L,self.mesh,k)]
            r.shuffle(pool)
            for p in pool[:r.choice([0,1,3,len(pool)])]: L.MSet_Add(h,p)
    def proj(self,**kw): return Proj(self.L,self.mesh,**kw)

def put(log,op,a,r,A,B,w=None,**kw):
    rec=dict(op=op,a=a,r=r,A=A.s if A else {},B=B.s if B else {},w=w or {}); rec.update(kw)
    log.put(rec)

# ------------------------------------------------------------------ copy
def poke(L,rng,mesh,n,scale=1024):
    """random later changes of a mesh: structure, coordinates, classification, values, sets, identifiers"""
    S=Session(L,F1,None,mesh=mesh,obs=False,scale=scale)
    S.sync(); S.snap=S.project()
    ed=Editor(S,rng,70)
    for _ in range(n):
        m=rng.random()
        if m<.5:
            ed.step(dict(split=3,fsplit=2,fsplite=2,joinf=1,joinr=1,**{'del':2},newv=2,newe=1))
            if any(S.kept): ed.purge()
        elif m<.6 and S.u2p[0]:
            p=rng.choice(list(S.u2p[0].values())); L.MV_Set_Coords(p,dbl([rng.random() for _ in range(3)]))
        elif m<.7:
            k=rng.randrange(4)
            if S.u2p[k]: p=rng.choice(list(S.u2p[k].values())); getattr(L,PFX[k]+'_Set_GEntID')(p,rng.randint(50,60))
        elif m<.9 and L.MESH_Num_Attribs(mesh):
            a=L.MESH_Attrib(mesh,rng.randrange(L.MESH_Num_Attribs(mesh))); t=L.MAttrib_Get_Type(a); d=L.MAttrib_Get_EntDim(a); c=L.MAttrib_Get_NumComps(a)
            ks=[k for k in range(4) if d in(k,5) and S.u2p[k]]
            if ks and t!=POINTER:
                k=rng.choice(ks); p=rng.choice(list(S.u2p[k].values()))
                if t in(VECTOR,TENSOR):
                    # write through the stored array, as its owner may
                    pv=C.c_void_p(0); L.MEnt_Get_AttVal(p,a,None,None,C.byref(pv))
                    if pv.value and rng.random()<.7: (C.c_double*c).from_address(pv.value)[rng.randrange(c)]=-4321.5
                    else: b=dbl([1.5]*c); L.MEnt_Set_AttVal(p,a,0,0.,C.addressof(b))
                elif rng.random()<.6: L.MEnt_Set_AttVal(p,a,rng.randint(1,99),rng.random(),None)
                else: L.MEnt_Rem_AttVal(p,a)
        elif m<.95:
            n_=L.MESH_Num_MSets(mesh)
            if n_:
                h=L.MESH_MSet(mesh,rng.randrange(n_)); d=L.MSet_EntDim(h); ks=[k for k in range(4) if d in(k,5) and S.u2p[k]]
                if ks: L.MSet_Add(h,rng.choice(list(S.u2p[rng.choice(ks)].values())))
        elif L.MESH_Num_Attribs(mesh) and rng.random()<.5:
            a=L.MESH_Attrib(mesh,rng.randrange(L.MESH_Num_Attribs(mesh)))
            if L.MAttrib_Get_Type(a)!=POINTER: L.MAttrib_Delete(a)
        S.sync(); S.snap=S.project()
def copy(L,log,rng,count):
    while log.n<count:
        X=Src(L,rng); S=X.S
        if rng.random()<.4:
            for k in range(4):
                for i,p in enumerate(S.u2p[k].values()):
                    if rng.random()<.8: getattr(L,PFX[k]+'_Set_GlobalID')(p,i*3+k+1)
        A=X.proj(gid=True); put(log,'init',{},0,A,None)
        wa,ws=rng.choice([(1,1),(1,1),(0,0),(1,0),(0,1)])
        m2=L.MESH_New(F1)
        ok=L.MESH_Copy(X.mesh,m2,wa,ws)
        A=X.proj(gid=True); B=Proj(L,m2,gid=True)
        put(log,'copy',dict(attr=wa,sets=ws),ok,A,B,witness(A,B),look=B.look())
        for _ in range(rng.randint(1,3)):
            if rng.random()<.5:
                poke(L,rng,X.mesh,rng.randint(1,4)); B=Proj(L,m2,gid=True); A=X.proj(gid=True); put(log,'editA',{},0,A,B)
            else:
                poke(L,rng,m2,rng.randint(1,4)); B=Proj(L,m2,gid=True); A=X.proj(gid=True); put(log,'editB',{},0,A,B,look=B.look())
        if rng.random()<.4:
            if rng.random()<.5: L.MESH_Delete(X.mesh); put(log,'editA',{},0,None,Proj(L,m2,gid=True)); L.MESH_Delete(m2)
            else: L.MESH_Delete(m2); put(log,'editB',{},0,X.proj(gid=True),None); L.MESH_Delete(X.mesh)

# ------------------------------------------------------------------ native files
def scratch(name):
    d=os.environ.get('SCRATCH') or os.environ.get('TMPDIR') or '/tmp'
    return os.path.join(d,'%s_%d'%(name,os.getpid()))
def native(L,log,rng,count):
    while log.n<count:
        X=Src(L,rng,sets=False)
        A=X.proj(); put(log,'init',{},0,A,None)
        fn=scratch('m')+'.mstk'
        frep=rng.choice([F1,F1,F1,F4,5])  # representation named in the file
        rrep=rng.choice([F1,F1,5]) if frep in(F1,5) else F1   # representation read into (5: as the file says)
        if rng.random()<.5: ok=L.MESH_WriteToFile(X.mesh,fn.encode(),frep,None)
        else: frep=F1; ok=L.MESH_ExportToFile(X.mesh,fn.encode(),b'mstk',-1,None,None,None)
        A=X.proj(); put(log,'write',dict(rep=frep),ok,A,None)
        m2=L.MESH_New(rrep)
        ok=L.MESH_InitFromFile(m2,fn.encode(),None) if rng.random()<.5 else L.MESH_ImportFromFile(m2,fn.encode(),b'mstk',None,None)
        B=Proj(L,m2); put(log,'read',dict(rep=frep),ok,A,B,witness(A,B),look=B.look())
        os.unlink(fn); L.MESH_Delete(m2); L.MESH_Delete(X.mesh)

# ------------------------------------------------------------------ generation
def gen(L,log,rng,count):
    while log.n<count:
        m=L.MESH_New(F1); sc=8
        if rng.random()<.6:
            two=rng.random()<.4
            n=[rng.randint(1,6),rng.randint(1,5),0] if two else rng.choice([[rng.randint(1,3) for _ in range(3)],[1,1,rng.randint(1,5)],[rng.randint(1,4),rng.randint(1,4),1]])
            h=[rng.choice([1,2,3,4,8,12]) for _ in range(3)]; l=[rng.randint(-20,20) for _ in range(3)]
            u=[l[i]+n[i]*h[i] for i in range(3)]
            if two: l[2]=0; u[2]=rng.choice([0,8]);
            f=lambda x:[t/sc for t in x]
            put(log,'init',{},0,Proj(L,m,scale=sc),None); L.MESH_Delete(m)
            m=L.MESH_Gen_Structured(*f(l),*f(u),*n); ok=1 if m else 0
            B=Proj(L,m,scale=sc,full=False); put(log,'gen',dict(n=n,l=l,h=h),ok,None,B,look=B.look())
        else:
            g=meshes.shuffle(meshes.rand2(rng) if rng.random()<.5 else meshes.rand3(rng,rng.random()<.3),rng)
            if g.dim==3 and not g.std: L.MESH_Delete(m); continue
            if g.dim==3 and any(not e or len(e) not in(4,5,6,8) for e in g.std): L.MESH_Delete(m); continue
            els=g.cells if g.dim==2 else g.std
            els=[list(e) for e in els]
            if rng.random()<.3 and g.dim==2:  # element loops listed either way round
                els=[e if rng.random()<.7 else e[::-1] for e in els]
            sc=1; nv=len(g.pts); xyz=dbl([float(x) for p in g.pts for x in p])
            arrs=[ints(e) for e in els]; pp=ptrs([C.addressof(a) for a in arrs]); cnt=ints([len(e) for e in els])
            put(log,'init',{},0,Proj(L,m,scale=sc),None)
            if g.dim==2: ok=L.MESH_InitFromGenDesc(m,nv,C.addressof(xyz),len(els),C.addressof(cnt),C.addressof(pp),0,None,None,None,None)
            else: ok=L.MESH_InitFromGenDesc(m,nv,C.addressof(xyz),0,None,None,len(els),C.addressof(cnt),C.addressof(pp),None,None)
            B=Proj(L,m,scale=sc,full=False)
            put(log,'gendesc',dict(dim=g.dim,xyz=[[int(x) for x in p] for p in g.pts],els=[[v+1 for v in e] for e in els]),ok,None,B,look=B.look())
        L.MESH_Delete(m)
# ------------------------------------------------------------------ element graphs
def biggeo(rng):
    return rng.choice([lambda:meshes.hexes(4,4,3),lambda:meshes.hexes(3,3,3),lambda:meshes.quads(6,5),lambda:meshes.tris(5,5,rng),lambda:meshes.tets(2,2,2)])()
def rows(nel,beg,els):
    b=(C.c_int*(nel+1)).from_address(beg); e=(C.c_int*max(1,b[nel])).from_address(els)
    return [list(e[b[i]:b[i+1]]) for i in range(nel)]
libc=C.CDLL(None); libc.free.argtypes=[C.c_void_p]
def graph(L,log,rng,count):
    while log.n<count:
        g=biggeo(rng) if rng.random()<.15 else None
        X=Src(L,rng,g=g,atts=False,sets=False,edit=.4 if not g else 0)
        L.MESH_Renumber(X.mesh,0,5)
        A=X.proj(full=False); put(log,'init',{},0,A,None)
        n=C.c_int(0);b=C.c_void_p(0);e=C.c_void_p(0)
        ok=L.MESH_GetElementGraph(X.mesh,C.byref(n),C.byref(b),C.byref(e))
        A=X.proj(full=False); put(log,'graph',dict(n=n.value,g=rows(n.value,b.value,e.value)),ok,A,None)
        libc.free(b);libc.free(e); L.MESH_Delete(X.mesh)
# ------------------------------------------------------------------ renumbering
def renum(L,log,rng,count):
    while log.n<count:
        g=biggeo(rng) if rng.random()<.2 else None
        X=Src(L,rng,g=g,edit=.6 if not g else .2,weights={'split':2,'fsplit':2,'fsplite':2,'del':6,'newv':2,'newe':1,'joinf':1,'setid':2,'collapse':.5},jiggle=rng.random()<.5)
        if rng.random()<.3:
            for k in range(4):
                es=walk(L,X.mesh,k)
                if rng.random()<.5:
                    ids=rng.sample(range(1,len(es)*2+5),len(es)) if rng.random()<.5 else rng.sample(range(1,len(es)+1),len(es))
                    for p,i in zip(es,ids): getattr(L,PFX[k]+'_Set_ID')(p,i)
            L.MESH_Reset_Cached_MaxIDs(X.mesh)
        A=X.proj(); put(log,'init',{},0,A,None)
        for _ in range(rng.randint(1,3)):
            t=rng.choice([0,1,1]); k=rng.choice([0,1,2,3,5,5])
            L.MESH_Renumber(X.mesh,t,k)
            B=X.proj(); put(log,'renum',dict(type=t,kind=k),0,A,B,pwitness(A,B),look=B.look()); A=B
            if rng.random()<.4:
                X.attrs=lambda *a,**k:None
                poke(L,rng,X.mesh,rng.randint(1,4)); A=X.proj(); put(log,'edit',{},0,A,None)
                if A.s['n'][0]==0: break
        L.MESH_Delete(X.mesh)
# ------------------------------------------------------------------ conversions
def conv(L,log,rng,count):
    while log.n<count:
        kind=rng.choice(['tri2quad','tet2hex','delint','delint'])
        sc=1
        if kind=='delint':
            X=Src(L,rng,jiggle=False,sets=False,cls=rng.choice(['box','model','model','flat','none']),edit=.3)
        else:
            for _ in range(60):
                g=meshes.rand2(rng) if kind=='tri2quad' else meshes.rand3(rng,True)
                if kind=='tet2hex' or all(len(c)==3 for c in g.cells): break
            else: continue
            g.pts=[tuple(12*x for x in p) for p in g.pts]
            if g.box: g.box=tuple(12*x for x in g.box)
            X=Src(L,rng,g=g,edit=.3,jiggle=False,weights=dict(swap=2,restore=0))
        if kind=='delint': sc=64
        A=X.proj(scale=sc)
        if A.s['n'][X.g.dim]==0: L.MESH_Delete(X.mesh); continue
        put(log,'init',{},0,A,None)
        if kind=='delint':
            ok=L.MESH_DelInterior(X.mesh)
            B=X.proj(scale=sc); put(log,'delint',{},ok,None,B,pwitness(A,B),look=B.look())
        else:
            q=C.c_void_p(0); ok=getattr(L,'MESH_Tri2Quad' if kind=='tri2quad' else 'MESH_Tet2Hex')(X.mesh,C.byref(q))
            A=X.proj(scale=sc); B=Proj(L,q.value,scale=sc,full=False)
            at={}
            for i,p in enumerate(B.s['V']): at.setdefault(tuple(p),[]).append(i+1)
            pop=lambda p:(lambda c:c.pop(0) if c else 0)(at.get(tuple(p),[]))
            V=A.s['V']; mean=lambda vs:[sum(V[v-1][d] for v in vs)//len(vs) for d in range(3)]
            w=dict(V=[pop(p) for p in V],E=[pop(mean(e)) for e in A.s['E']],F=[pop(mean(A.fvs(i))) for i in range(len(A.s['F']))],
                   R=[pop(mean(set(v for f,d in r for v in A.fvs(f-1)))) for r in A.s['R']])
            put(log,kind,{},ok,A,B,w,look=B.look()); L.MESH_Delete(q.value)
        L.MESH_Delete(X.mesh)
# ------------------------------------------------------------------ Exodus II
def clean(X):
    """delete what belongs to no element, so that the mesh is one the format can express"""
    S=X.S; L=X.L
    for k in (2,1,0):
        for p in walk(L,X.mesh,k):
            if k>=X.g.dim: continue
            up=[lst(L,L.MV_Edges(p)),[]] if k==0 else [lst(L,getattr(L,PFX[k]+'_'+PL[k+1])(p)),[]]
            if not up[0]: getattr(L,PFX[k]+'_Delete')(p,0)
def polyblocks(L,X):
    t=set(L.MR_ElementType(p) for p in walk(L,X.mesh,3)); return len(t)>1 or t&{2,5}
def convexcells(L,X):
    """all regions convex with planar faces and oriented outwards (the format infers sides of polyhedra from geometry)"""
    A=X.proj(); pts=[]
    for p in walk(L,X.mesh,0):
        b=(C.c_double*3)(); L.MV_Coords(p,b); pts.append(list(b))
    for r in A.s['R']:
        vs=set(v for f,d in r for v in A.fvs(f-1))
        for f,d in r:
            c=A.fvs(f-1); n=[0.,0.,0.]
            for i in range(len(c)):
                p,q=pts[c[i]-1],pts[c[(i+1)%len(c)]-1]
                for k in range(3): n[k]+=p[(k+1)%3]*q[(k+2)%3]-p[(k+2)%3]*q[(k+1)%3]
            m=sum(x*x for x in n)**.5
            if m<1e-6: return False
            if not d: n=[-x for x in n]
            h={v:sum((pts[v-1][k]-pts[c[0]-1][k])*n[k] for k in range(3))/m for v in vs}
            if any(abs(h[v])>1e-7 for v in c) or max(h.values())>1e-7 or min(h.values())>-1e-3: return False
    return True
def exomesh(L,rng,dyadic=False,convex=True,g=None,**kw):
    g=g or (biggeo(rng) if rng.random()<.08 else None)
    X=Src(L,rng,g=g,edit=.4 if not g or len(g.pts)<40 else .1,jiggle=False,atts=False,sets=False,cls=rng.choice(['box','model','model','flat','none']),mid=True,**kw)
    clean(X); dim=X.g.dim
    if not walk(L,X.mesh,dim): L.MESH_Delete(X.mesh); return None
    # affine image with fractional coordinates: stays valid
    seen=[]
    f=[rng.choice([1,.5,.25,2.75] if dyadic else [1,.5,.3,2.75]) for _ in range(3)]; t=[rng.choice([0,.125,-7.5] if dyadic else [0,1/3,-7.1]) for _ in range(3)]
    sh=rng.choice([0,0,.25])
    for p in walk(L,X.mesh,0):
        b=(C.c_double*3)(); L.MV_Coords(p,b); x=list(b)
        y=[x[i]*f[i]+t[i] for i in range(3)]; y[0]+=sh*x[1]
        if dim==2: y[2]=0. if not X.warp else x[0]*.5+x[1]*x[1]*.125
        if dyadic: y=[round(z*1024)/1024 for z in y]
        L.MV_Set_Coords(p,dbl(y)); seen.append(tuple(y))
    if len(set(seen))<len(seen) or (convex and dim==3 and polyblocks(L,X) and not convexcells(L,X)):
        L.MESH_Delete(X.mesh); return None
    if rng.random()<.6:  # blocks of any number, mixing element types
        gs=rng.sample(range(1,300),rng.randint(1,4))
        for p in walk(L,X.mesh,dim): getattr(L,PFX[dim]+'_Set_GEntID')(p,rng.choice(gs)); getattr(L,PFX[dim]+'_Set_GEntDim')(p,dim)
    return X
Src.warp=False
def exosets(X,pre,k,ids,fill):
    L,rng=X.L,X.rng
    for i in ids:
        h=L.MSet_New(X.mesh,('%s_%d'%(pre,i)).encode(),k); pool=walk(L,X.mesh,k); rng.shuffle(pool)
        for p in pool[:rng.choice(fill+[len(pool)])]: L.MSet_Add(h,p)
def exo(L,log,rng,count):
    while log.n<count:
        Src.warp=rng.random()<.3
        X=exomesh(L,rng)
        if not X: continue
        dim=X.g.dim
        if rng.random()<.3: L.MESH_Renumber(X.mesh,rng.choice([0,1]),5); L.MAttrib_Delete(L.MESH_AttribByName(X.mesh,b'vidrcm')) if L.MESH_AttribByName(X.mesh,b'vidrcm') else 0
        some=lambda lo:rng.sample(range(lo,lo+60),rng.choice([0,0,1,1,2,3]))
        exosets(X,'nodeset',0,some(700),[1,1,3]); exosets(X,'sideset',dim-1,some(300),[1,2,4]); exosets(X,'elemset',dim,some(500),[1,2,3])
        for i in range(rng.choice([0,0,1,2,3])):
            t=rng.choice([DOUBLE,VECTOR,TENSOR,INT]); d=rng.choice([0,dim,dim]); c=rng.randint(2,6) if t in(VECTOR,TENSOR) else 1
            if t==VECTOR: c=dim
            a=L.MAttrib_New(X.mesh,('%s%d'%(rng.choice(['temp','vel','q']),i)).encode(),t,d,c)
            fill=rng.choice([.5,1,1]) if os.environ.get('EXOFILL') is None else 1
            for p in walk(L,X.mesh,d):
                if rng.random()<fill: X.setval(p,a,t,c)
        A=X.proj(); put(log,'init',{},0,A,None)
        fn=scratch('m')+'.exo'
        geo=rng.choice([0,0,1])
        opts=ints([0,geo,1,0]) if rng.random()<.7 or geo else None
        if rng.random()<.5: ok=L.MESH_ExportToExodusII(X.mesh,fn.encode(),rng.choice([-1,0]),None,opts,None)
        else: ok=L.MESH_ExportToFile(X.mesh,fn.encode(),b'exodusii',-1,None,opts,None)
        A=X.proj(); put(log,'write',{},ok,A,None)
        m2=L.MESH_New(F1)
        ok=L.MESH_ImportFromFile(m2,fn.encode(),b'exodusii',None,None) if rng.random()<.5 else L.MESH_ImportFromExodusII(m2,fn.encode(),None,None)
        B=Proj(L,m2); put(log,'exoread',dict(dim=dim,geo=geo,warp=int(Src.warp)),ok,A,B,witness(A,B),look=B.look())
        os.unlink(fn); L.MESH_Delete(m2); L.MESH_Delete(X.mesh)
def exograph(L,log,rng,count):
    while log.n<count:
        X=exomesh(L,rng)
        if not X: continue
        fn=scratch('m')+'.exo'; ok=L.MESH_ExportToFile(X.mesh,fn.encode(),b'exodusii',-1,None,None,None); L.MESH_Delete(X.mesh)
        m2=L.MESH_New(F1); ok=L.MESH_ImportFromFile(m2,fn.encode(),b'exodusii',None,None) and ok
        B=Proj(L,m2,scale=1000,full=False); put(log,'init',{},0,B,None)
        nd=C.c_int(0);n=C.c_int(0);b=C.c_void_p(0);e=C.c_void_p(0);c=C.c_void_p(0); gc=rng.choice([0,1])
        ok=L.ExodusII_GetElementGraph(fn.encode(),C.byref(nd),C.byref(n),C.byref(b),C.byref(e),gc,C.byref(c)) and ok
        cen=[[int(round(x*1000)) for x in (C.c_double*3).from_address(c.value+24*i)] for i in range(n.value)] if gc else []
        B=Proj(L,m2,scale=1000,full=False)
        put(log,'exograph',dict(n=n.value,nd=nd.value,cen=cen,getc=gc,g=rows(n.value,b.value,e.value)),ok,B,None)
        for q in (b,e)+((c,) if gc else ()): libc.free(q)
        os.unlink(fn); L.MESH_Delete(m2)
# ------------------------------------------------------------------ GMV, STL, OFF
def gmv(L,log,rng,count):
    while log.n<count:
        Src.warp=rng.random()<.3
        X=exomesh(L,rng,dyadic=True,convex=False)
        if not X: continue
        dim=X.g.dim
        if rng.random()<.3:
            L.MESH_Renumber(X.mesh,rng.choice([0,1]),5)
            if L.MESH_AttribByName(X.mesh,b'vidrcm'): L.MAttrib_Delete(L.MESH_AttribByName(X.mesh,b'vidrcm'))
        if rng.random()<.4:
            for k in range(4):
                es=walk(L,X.mesh,k)
                for p,i in zip(es,rng.sample(range(1,len(es)+1),len(es))): getattr(L,PFX[k]+'_Set_ID')(p,i)
        for i in range(rng.choice([0,0,1,2,3])):
            t=rng.choice([DOUBLE,INT,INT,VECTOR]); d=rng.choice([0,dim,dim,5]); c=2 if t==VECTOR else 1
            a=L.MAttrib_New(X.mesh,('%s%d'%(rng.choice(['temp','vel','q']),i)).encode(),t,d,c)
            for k in ((0,dim) if d==5 else (d,)):
                fill=rng.choice([.5,1,1])
                for p in walk(L,X.mesh,k):
                    if rng.random()<fill:
                        if t==DOUBLE: L.MEnt_Set_AttVal(p,a,0,rng.randint(-99999,99999)/64,None)
                        else: X.setval(p,a,t,c)
        A=X.proj(); put(log,'init',{},0,A,None)
        names=sorted({a['n'] for a in A.s['at']}); natt=0; arr=None; want=names
        if names and rng.random()<.3:
            want=rng.sample(names,rng.randint(1,len(names))); natt=len(want)
            bs=[C.create_string_buffer(n.encode()) for n in want]; arr=C.addressof(keep:=ptrs([C.addressof(b) for b in bs]))
        fn=scratch('m')+'.gmv'
        face=rng.choice([0,0,1]) if dim==3 else 0
        opts=ints([rng.choice([0,1]),face]) if rng.random()<.7 or face else None
        if rng.random()<.5: ok=L.MESH_ExportToGMV(X.mesh,fn.encode(),natt,arr,opts,None)
        else: ok=L.MESH_ExportToFile(X.mesh,fn.encode(),rng.choice([b'gmv',None]),natt,arr,opts,None)
        A=X.proj(); put(log,'gwrite',{},ok,A,None)
        m2=L.MESH_New(F1)
        ok=L.MESH_ImportFromFile(m2,fn.encode(),rng.choice([b'gmv',None]),None,None) if rng.random()<.5 else L.MESH_ImportFromGMV(m2,fn.encode(),None)
        B=Proj(L,m2)
        for x in B.s['at']: x['v']=[[k,u,[fnum(float(v)) for v in q]] for k,u,q in x['v']]
        put(log,'gmvread',dict(dim=dim,want=want),ok,A,B,witness(A,B),look=B.look())
        os.unlink(fn); L.MESH_Delete(m2); L.MESH_Delete(X.mesh)
def surf(L,log,rng,count):
    """STL and OFF: the text that was written, as numbers"""
    while log.n<count:
        stl=rng.random()<.5
        for _ in range(60):
            g=meshes.rand2(rng)
            if not stl or all(len(c)==3 for c in g.cells): break
        else: continue
        Src.warp=rng.random()<.5
        X=exomesh(L,rng,dyadic=True,g=g,weights=dict(swap=2,restore=0,**{'del':1}) if stl else None)
        if not X: continue
        if rng.random()<.4:
            es=walk(L,X.mesh,0)
            for p,i in zip(es,rng.sample(range(1,len(es)+1),len(es))): L.MV_Set_ID(p,i)
        if rng.random()<.5: X.attrs()
        A=X.proj(); put(log,'init',{},0,A,None)
        fn=scratch('m')+('.stl' if stl else '.off')
        if rng.random()<.5: ok=getattr(L,'MESH_ExportTo'+('STL' if stl else 'OFF'))(X.mesh,fn.encode())
        else: ok=L.MESH_ExportToFile(X.mesh,fn.encode(),b'stl' if stl else b'off',0,None,None,None)
        A=X.proj(); tx=open(fn).read() if os.path.exists(fn) else ''; w=tx.split(); i=0
        a=dict(bad=1)
        try:
            if stl:
                ls=[x.split() for x in tx.split('\n')]; fs=[]; assert ls[0][0]=='solid' and ls[-2][0]=='endsolid' and ls[-1]==[]
                assert (len(ls)-3)%7==0
                for j in range(1,len(ls)-2,7):
                    assert ls[j][:2]==['facet','normal'] and ls[j+1]==['outer','loop'] and ls[j+5]==['endloop'] and ls[j+6]==['endfacet']
                    assert all(ls[j+k][0]=='vertex' and len(ls[j+k])==4 for k in (2,3,4)) and len(ls[j])==5
                    p=[[float(x) for x in ls[j+k][1:]] for k in (2,3,4)]
                    fs.append(dict(n=[int(round(float(x)*1000)) for x in ls[j][2:]],p=[[fnum(x) for x in y] for y in p],q=[[int(round(x*32)) for x in y] for y in p]))
                a=dict(f=fs,bad=0)
            else:
                assert w[0]=='OFF'; nv,nf,ne=map(int,w[1:4]); j=4
                V=[[fnum(float(x)) for x in w[4+3*k:7+3*k]] for k in range(nv)]; j=4+3*nv; fs=[]
                for k in range(nf): n=int(w[j]); fs.append([int(x) for x in w[j+1:j+1+n]]); j+=1+n
                assert j==len(w)
                a=dict(V=V,f=fs,bad=0)
        except (AssertionError,ValueError,IndexError): pass
        put(log,'stl' if stl else 'off',a,ok,A,None)
        if tx: os.unlink(fn)
        L.MESH_Delete(X.mesh)
PROFILES=dict(gmv=gmv,surf=surf,exograph=exograph,exo=exo,copy=copy,native=native,gen=gen,graph=graph,renum=renum,conv=conv)
