"""parallel histories: distribution, weaving, updates, gather-scatter, exchange, coordinates, renumbering, checking, partitioning"""
import glob
from pdrive import *
from xform import exomesh,exosets,scratch,Src

def give(L,p): return C.cast(C.pointer((C.c_int*max(1,len(p)))(*p)),C.c_void_p)
def chosen(cx,part):
    """partitioners give this partition until the returned function is called"""
    d=cx.L.dll
    on=C.c_int.in_dll(d,'vp_on'); vp=C.c_void_p.in_dll(d,'vp_part'); vn=C.c_int.in_dll(d,'vp_n')
    if part is not None:
        on.value=1
        if cx.mpi.rank==0:
            on.buf=(C.c_int*max(1,len(part)))(*part); vp.value=C.addressof(on.buf); vn.value=len(part)
    def done(): on.value=0; vp.value=None; vn.value=0
    return done
def distribute(cx,X,A,part,ring,attr,delete,dim,method=0):
    """the real distribution with a chosen partition -> this process's mesh"""
    L,mpi=cx.L,cx.mpi
    done=chosen(cx,part)
    mine=C.c_void_p(0); dd=C.c_int(dim if mpi.rank==0 else -7)
    r=L.MSTK_Mesh_Distribute(X.mesh if X else None,C.byref(mine),C.byref(dd),ring,attr,method,delete,mpi.comm)
    done()
    return mine.value,(1 if r==1 and dd.value==dim else 0)
def piece(cx,A,part,dim,typ):
    """this process's part of the mesh A, created in its own order, with its own directions"""
    L,r,me=cx.L,cx.loc,cx.mpi.rank
    m=L.MESH_New(F1); els=[i for i,q in enumerate(part) if q==me]
    if r.random()<.7: r.shuffle(els)
    flip=r.random()<.6
    V={};E={};F={}
    def vert(i):
        if i not in V:
            v=V[i]=L.MV_New(m); L.MV_Set_Coords(v,dbl([float(x) for x in A['V'][i-1]]))
            L.MV_Set_GEntDim(v,A['c'][0][i-1][0]); L.MV_Set_GEntID(v,A['c'][0][i-1][1])
            if typ==1: L.MV_Set_GlobalID(v,A['vg'][i-1])
        return V[i]
    def edge(i):
        if i not in E:
            a,b=A['E'][i-1]; x=1 if flip and r.random()<.5 else 0
            if x: a,b=b,a
            e=L.ME_New(m); L.ME_Set_Vertex(e,0,vert(a)); L.ME_Set_Vertex(e,1,vert(b))
            L.ME_Set_GEntDim(e,A['c'][1][i-1][0]); L.ME_Set_GEntID(e,A['c'][1][i-1][1]); E[i]=(e,x)
        return E[i]
    def face(i):
        if i not in F:
            es=[]
            for j,d in A['F'][i-1]: e,x=edge(j); es.append((e,1-d if x else d))
            x=1 if flip and dim==3 and r.random()<.5 else 0
            if x: es=[(e,1-d) for e,d in reversed(es)]
            if flip: k=r.randrange(len(es)); es=es[k:]+es[:k]
            f=L.MF_New(m); L.MF_Set_Edges(f,len(es),ptrs([e for e,_ in es]),ints([d for _,d in es]))
            L.MF_Set_GEntDim(f,A['c'][2][i-1][0]); L.MF_Set_GEntID(f,A['c'][2][i-1][1]); F[i]=(f,x)
        return F[i]
    if r.random()<.3:      # vertices first
        vs=sorted({v for i in els for v in adjacency(A)[i]}); r.shuffle(vs)
        for v in vs: vert(v)
    for i in els:
        if dim==2: face(i+1); continue
        fs=[]
        for j,d in A['R'][i]: f,x=face(j); fs.append((f,1-d if x else d))
        if flip: r.shuffle(fs)
        q=L.MR_New(m); L.MR_Set_Faces(q,len(fs),ptrs([f for f,_ in fs]),ints([d for _,d in fs]))
        L.MR_Set_GEntDim(q,A['c'][3][i][0]); L.MR_Set_GEntID(q,A['c'][3][i][1])
    return m
class Case:
    """a distributed mesh and what is known of it"""
    def __init__(self,cx): self.cx=cx
    def start_dist(self,ring=None,attr=None,atts=True,grid=None,given=None):
        cx,L,mpi=self.cx,self.cx.L,self.cx.mpi; rng=cx.rng
        g=grid or parmesh(rng); ring=rng.choice([1,1,1,1,0]) if ring is None else ring; attr=rng.choice([1,1,1,0]) if attr is None else attr
        srng=random.Random(rng.random()); prng=random.Random(rng.random()); delete=rng.choice([0,0,1])
        X=A=part=None;dim=0; twice=not delete and rng.random()<.3
        if mpi.rank==0:
            while True:
                X=source(cx,srng,g=g,atts=atts,edit=0 if given else .3)
                if srng.random()<.2:      # global identifiers given beforehand
                    for k in range(4):
                        es=walk(L,X.mesh,k); ids=list(range(1,len(es)+1)) if srng.random()<.5 else srng.sample(range(1,9*len(es)+2),len(es)); srng.shuffle(ids)
                        for p,i in zip(es,ids): getattr(L,PFX[k]+'_Set_GlobalID')(p,i)
                A=globalmesh(X); dim=3 if A['R'] else 2; part=given or nonempty(prng,A,mpi.size)
                if part is not None: break
                L.MESH_Delete(X.mesh); g=parmesh(prng)
            cx.log.put(dict(op='init',a={},r=[],P=[],A=A))
        A,part,dim=mpi.bcast((A,part,dim))
        self.A,self.part,self.dim,self.ring,self.attr=A,part,dim,ring,attr
        if twice:       # the same whole mesh distributed before with another partition
            m,ok=distribute(cx,X,A,nonempty(rng,A,mpi.size),rng.choice([0,1]),rng.choice([0,1]),0,dim); L.MESH_Delete(m)
        self.mesh,ok=distribute(cx,X,A,part,ring,attr,delete,dim)
        B=None
        if X:
            if not delete:
                Q=globalmesh(X); B={k:Q[k] for k in Q if k!='g'}; names={a['n'] for a in A['at']}; B['at']=[a for a in B['at'] if a['n'] in names]; L.MESH_Delete(X.mesh)
        self.S=PSnap(L,self.mesh,A,look=2)
        a=dict(part=part,ring=ring,attr=attr,dim=dim,n=mpi.size)
        if B: a['parent']=B
        cx.put('dist',a,self.S,ok)
    def start_weave(self,typ=None,ring=None,grid=None,given=None):
        """every process builds its piece on its own; the pieces are then woven together"""
        cx,L,mpi=self.cx,self.cx.L,self.cx.mpi; rng=cx.rng
        typ=rng.choice([0,0,1]) if typ is None else typ; ring=rng.choice([1,1,1,1,0]) if ring is None else ring
        g=grid or parmesh(rng); srng=random.Random(rng.random()); prng=random.Random(rng.random())
        A=part=None;dim=0
        if mpi.rank==0:
            while True:
                X=source(cx,srng,g=g,atts=False,lattice=srng.random()<.5,edit=0 if given else .3); A=globalmesh(X); dim=3 if A['R'] else 2
                part=given or nonempty(prng,A,mpi.size); L.MESH_Delete(X.mesh)
                if part is not None: break
                g=parmesh(prng)
            if typ==1:
                n=len(A['V']); ids=list(range(1,n+1)) if srng.random()<.5 else srng.sample(range(1,7*n+2),n); srng.shuffle(ids); A['vg']=ids
            cx.log.put(dict(op='init',a={},r=[],P=[],A=A))
        A,part,dim=mpi.bcast((A,part,dim))
        self.A,self.part,self.dim,self.ring,self.attr=A,part,dim,ring,0
        self.mesh=piece(cx,A,part,dim,typ)
        r=L.MSTK_Weave_DistributedMeshes(self.mesh,dim,ring,typ,mpi.comm)
        self.S=PSnap(L,self.mesh,A,look=2)
        cx.put('weave',dict(part=part,ring=ring,dim=dim,n=mpi.size,typ=typ),self.S,r)
    def snap(self,look=0):
        self.S=PSnap(self.cx.L,self.mesh,None,look=look,old=self.S); return self.S
    def end(self):
        self.cx.L.MESH_Delete(self.mesh)
    # ------------------------------------------------------------ steps
    def newatt(self,i,types=(INT,DOUBLE,VECTOR,TENSOR),dims=None,num=False):
        L,rng=self.cx.L,self.cx.rng
        t=rng.choice(types); d=rng.choice(dims or ([0,1,2,3] if self.dim==3 else [0,1,2])); c=rng.randint(1,4) if t in(VECTOR,TENSOR) else 1
        nm='%s%d'%('num' if num else 'q',i)
        a=L.MAttrib_New(self.mesh,nm.encode(),t,d,c)
        return (a,nm,t,d,c)
    def fill(self,att,num=False,fill=None,small=False):
        """random values on a random subset of this process's entities"""
        L,r=self.cx.L,self.cx.loc; a,nm,t,d,c=att
        fill=r.choice([0,.3,.7,1,1]) if fill is None else fill
        for k in range(4):
            if d not in(k,5): continue
            for p in walk(L,self.mesh,k):
                if r.random()>fill: continue
                z=r.random()<.12
                if num: v=[0 if z else r.randint(-100,100)*60 for _ in range(c)]
                elif t==INT: v=[0 if z else r.randint(-2**31,2**31-1)]
                else: v=[0. if z else r.choice([r.uniform(-1,1)*10**r.randint(-9,9),r.randint(-9,9)+.5]) for _ in range(c)]
                if t==INT: L.MEnt_Set_AttVal(p,a,v[0],0.,None)
                elif t==DOUBLE: L.MEnt_Set_AttVal(p,a,0,float(v[0]),None)
                elif t==POINTER: L.MEnt_Set_AttVal(p,a,0,0.,4096+8*r.randint(1,1000))
                else: b=dbl([float(x) for x in v]); L.MEnt_Set_AttVal(p,a,0,0.,C.addressof(b))
    def env(self): self.cx.put('env',{},self.snap())
    def update(self):
        cx,L=self.cx,self.cx.L; rng=cx.rng
        atts=[self.newatt(i,(INT,DOUBLE,VECTOR,TENSOR,POINTER) if rng.random()<.3 else (INT,DOUBLE,VECTOR,TENSOR),dims=None if rng.random()<.9 else [5]) for i in range(rng.choice([1,1,2,3]))]
        for rep in range(rng.choice([1,2])):
            for a in atts: self.fill(a)
            self.env()
            way=rng.choice([0,0,1,2])
            if way==0:
                a=rng.choice(atts); r=L.MESH_Update1Attribute(self.mesh,a[0],cx.mpi.comm); names=[a[1]]
            else:
                r=(L.MESH_UpdateAttributes if way==1 else L.MSTK_UpdateAttr)(self.mesh,cx.mpi.comm); names=['*']
            cx.put('update',dict(names=names),self.snap(),r)
        for a in atts: L.MAttrib_Delete(a[0])
        self.env()
    def gs(self):
        cx,L=self.cx,self.cx.L; rng=cx.rng
        a=self.newatt(0,(INT,DOUBLE,DOUBLE,VECTOR),num=True)
        op=rng.choice([1,2,3,3,4]) if a[2]!=INT else rng.choice([1,2,3])
        other=self.newatt(9) if rng.random()<.3 else None
        if other: self.fill(other)
        for rep in range(rng.choice([1,2])):
            self.fill(a,num=True); self.env()
            r=L.MESH_GathScat1Attribute(self.mesh,a[0],op,cx.mpi.comm)
            cx.put('gs',dict(name=a[1],op=op,c=a[4],k=a[3],t=a[2]),self.snap(),r)
            op=rng.choice([1,2,3])
        L.MAttrib_Delete(a[0])
        if other: L.MAttrib_Delete(other[0])
        self.env()
    def xchg(self):
        cx,L=self.cx,self.cx.L; rng=cx.rng
        a=self.newatt(0,dims=[self.dim-1])
        self.fill(a); self.env()
        r=L.MESH_XchngEdgeFaceAttrib(self.mesh,a[0],cx.mpi.comm)
        cx.put('xchg',dict(name=a[1],k=a[3]),self.snap(),r)
        L.MAttrib_Delete(a[0]); self.env()
    def coords(self):
        cx,L,r=self.cx,self.cx.L,self.cx.loc
        f=r.choice([0,.3,1]); how=cx.rng.choice(['any','any','x','y','z','xy','tiny','zero']); who=cx.rng.choice(['all','all','owners','ghosts'])
        b=(C.c_double*3)()
        for p in walk(L,self.mesh,0):
            if r.random()<f and (who=='all' or (L.MV_PType(p)==3)==(who=='ghosts')):
                L.MV_Coords(p,b); v=list(b)
                if how=='any': v=[r.uniform(-5,5) for _ in range(3)]
                elif how=='zero': v[r.randrange(3)]=0.
                elif how=='tiny': d=r.randrange(3); v[d]=v[d]*(1+1e-15)+1e-300
                else:
                    for d in range(3):
                        if 'xyz'[d] in how: v[d]+=r.choice([1,-1,.5,r.uniform(-1,1)])
                L.MV_Set_Coords(p,dbl(v))
        self.env()
        r=L.MESH_UpdateVertexCoords(self.mesh,cx.mpi.comm)
        cx.put('coords',{},self.snap(),r)
    def renum(self):
        cx,L=self.cx,self.cx.L
        mt=cx.rng.choice([0,1,2,3 if self.dim==3 else 2,5,5,5])
        on=cx.rng.random()<.4      # lookup switched on before, and used without switching it on again
        if on: L.MESH_Enable_GlobalIDSearch(self.mesh)
        r=L.MESH_Renumber_GlobalIDs(self.mesh,mt,0,None,cx.mpi.comm)
        cx.put('renum',dict(k=mt),self.snap(look=1 if on else cx.rng.choice([0,2])),r)
        if on: L.MESH_Disable_GlobalIDSearch(self.mesh)
    def pdel(self):
        """elements are deleted, everywhere or only where they are ghosts, and with them what nothing uses any more"""
        cx,L,r=self.cx,self.cx.L,self.cx.rng; mpi=cx.mpi; S=self.S.s; el=self.dim; P=self.S.P.ent
        al=mpi.bcast(mpi.gather((S['w'],S['t']))); n=mpi.size
        every=sorted({y for w,_ in al for y in w[el]}); f=r.choice([.1,.3,.6]); gone={y for y in every if r.random()<f}
        for w,t in al:                                  # every process keeps something of its own
            mine=[y for y,q in zip(w[el],t[el]) if q!=3]
            if mine and not set(mine)-gone: gone-={r.choice(mine)}
        g=r.choice([0,0,.3]); ghosts=[{y for y,q in zip(w[el],t[el]) if q==3 and r.random()<g} for w,t in al]
        dead=[[] for _ in range(4)]; me=mpi.rank
        dead[el]=[i for i,y in enumerate(S['w'][el]) if y in gone or y in ghosts[me]]
        down={1:[[v-1 for v in e] for e in S['E']],2:[[e-1 for e,_ in x] for x in S['F']],3:[[q-1 for q,_ in x] for x in S['R']]}
        own=r.random()<.9
        for k in range(el-1,-1,-1):
            used={j for i,x in enumerate(down[k+1]) if i not in set(dead[k+1]) for j in x}
            orph=[i for i in range(len(P[k])) if i not in used]
            o=mpi.bcast(mpi.gather({S['w'][k][i] for i in orph})); hold=[set(w[k]) for w,_ in al]
            every={y for h in hold for y in h}; out={y for y in every if all(y in o[p] or y not in hold[p] for p in range(n))} if own else set()
            if own:                                     # renumbering needs at least one of each kind everywhere
                for w,t in al:
                    mine=[y for y,q in zip(w[k],t[k]) if q!=3]
                    if mine and not set(mine)-out: out-={min(mine)}
            extra=r.random()<.5
            dead[k]=[i for i in orph if S['w'][k][i] in out or (extra and S['t'][k][i]==3)]
        for k in range(el,-1,-1):
            d=list(dead[k]); cx.loc.shuffle(d)
            for i in d: getattr(L,PFX[k]+'_Delete')(P[k][i],0)
        cx.put('pdel',dict(el=mpi.gather([[i+1 for i in d] for d in dead]) or []),self.snap(look=2 if r.random()<.3 else 0),0)
        if r.random()<.5: L.MESH_Update_ParallelAdj(self.mesh,mpi.comm)
    def check(self):
        cx,L=self.cx,self.cx.L
        undo=None
        if cx.rng.random()<.8:
            q=cx.rng.randrange(cx.mpi.size); seed=cx.rng.random()
            if q==cx.mpi.rank: undo=self.corrupt(random.Random(seed))
            self.env()
        r=L.MESH_Parallel_Check(self.mesh,cx.mpi.comm)
        cx.put('check',{},self.snap(),r)
        if undo:
            for f,p,v in reversed(undo): f(p,v)
        self.env()
    def corrupt(self,r):
        """change the identifiers, owners or coordinates of one or two shared entities of this process"""
        L,cx=self.cx.L,self.cx; S=self.S
        sh=[(k,i) for k in range(4) for i,t in enumerate(S.s['t'][k]) if t in(1,3)]
        if not sh: return None
        k=r.choice(sorted({k for k,_ in sh})); c=[i for q,i in sh if q==k]
        gh=[i for i in c if S.s['t'][k][i]==3]
        P=S.P.ent[k]; X=PFX[k]; undo=[]
        def put(f,p,v,old): f(p,v); undo.append((f,p,old))
        setg=getattr(L,X+'_Set_GlobalID'); seto=getattr(L,X+'_Set_MasterParID'); g=S.s['g'][k]; how=r.random()
        if how<.2:
            i=r.choice(c); put(setg,P[i],r.choice([max(g)+1+r.randrange(3),r.choice(g),g[i]+1]),g[i])
        elif how<.45:
            i=r.choice(c); same=[j for j in c if j!=i and S.s['t'][k][j]==S.s['t'][k][i] and S.s['o'][k][j]==S.s['o'][k][i] and S.s['c'][k][j]==S.s['c'][k][i]]
            j=r.choice(same or c); put(setg,P[i],g[j],g[i])
            if j!=i: put(setg,P[j],g[i],g[j])
        elif how<.7 and gh:
            i=r.choice(gh); put(seto,P[i],r.randrange(cx.mpi.size),S.s['o'][k][i])
        elif how<.75:
            i=r.choice(c); put(seto,P[i],r.randrange(cx.mpi.size),S.s['o'][k][i])
        else:
            c=[i for i,t in enumerate(S.s['t'][0]) if t in(1,3)]
            i=r.choice(c); x=[float(v) for v in S.s['V'][i]]; y=list(x); d=r.randrange(3); y[d]+=r.choice([1,-1])*max(abs(y[d])*r.choice([1e-6,1]),r.choice([1e-6,1]))
            f=lambda p,v:L.MV_Set_Coords(p,dbl(v)); put(f,S.P.ent[0][i],y,x)
        return undo

def columnar(cx,rng):
    """a mesh of vertical columns of elements, some columns removed; the column of each element"""
    L=cx.L
    while True:
        r=rng.random()
        if r<.4: g=meshes.hexes(rng.randint(2,5),rng.randint(1,3),rng.randint(1,3))
        elif r<.6: g=meshes.prisms(rng.randint(2,3),rng.randint(1,2),rng.randint(1,2))
        else: g=meshes.extrude(rng.choice([lambda: meshes.mixed2(rng.randint(2,4),rng.randint(1,3),rng),lambda: meshes.tris(rng.randint(1,3),rng.randint(1,2),rng)])(),rng.randint(1,3))
        if len(g.cells)>40: continue
        X=Src(L,rng,g=g,rep=F1,edit=0,jiggle=False,atts=False,sets=False); X.S.sync()
        def col(p):
            b=(C.c_double*3)(); o=set()
            l=L.MR_Vertices(p)
            for i in range(L.List_Num_Entries(l)):
                L.MV_Coords(L.List_Entry(l,i),b); o.add((b[0],b[1]))
            L.List_Delete(l); return tuple(sorted(o))
        def regs():
            i=C.c_int(0); o=[]
            while True:
                p=L.MESH_Next_Region(X.mesh,C.byref(i))
                if not p: return o
                o.append(p)
        if rng.random()<.5:
            gone=[c for c in sorted({col(p) for p in regs()}) if rng.random()<.2]
            for p in regs():
                if col(p) in gone: L.MR_Delete(p,0)
        clean(X); cs=[col(p) for p in regs()]
        if cs:
            ix={c:i for i,c in enumerate(sorted(set(cs)))}
            return X,[ix[c] for c in cs]
        L.MESH_Delete(X.mesh)
def partprof(cx,count):
    """computing partitions with every method, and distributing with them"""
    L,mpi,rng=cx.L,cx.mpi,cx.rng; d=L.dll
    real=d.vp_real_partitioning; real.restype=C.c_int; real.argtypes=[C.c_void_p,C.c_int,C.c_void_p,C.c_void_p]
    metis=d.MESH_PartitionWithMetis; metis.restype=C.c_int; metis.argtypes=[C.c_void_p,C.c_int,C.c_void_p]
    n=mpi.size
    def whole(X): Q=globalmesh(X); return {k:Q[k] for k in Q if k!='g'}
    while cx.n<count:
        g=parmesh(rng); srng=random.Random(rng.random()); X=None; A=None; dim=0; cols=[]
        if mpi.rank==0:
            if g is None and srng.random()<.5: X,cols=columnar(cx,srng)
            else: X,cols=source(cx,srng,g=g,atts=False),[]
            A=globalmesh(X); dim=3 if A['R'] else 2
            cx.log.put(dict(op='init',a={},r=[],P=[],A=A))
        A,dim,cols=mpi.bcast((A,dim,cols)); m=len(elems(A))
        if mpi.rank==0 and srng.random()<.5:
            k=srng.choice([2,2,3,4,5,7]); p=C.c_void_p()
            if m>=k:
                r=metis(X.mesh,k,C.byref(p)); v=list((C.c_int*m).from_address(p.value)) if m else []
                cx.log.put(dict(op='part',a=dict(part=v,n=k,m=3,cols=[]),r=[r],P=[],A=whole(X)))
        if mpi.rank==0 and cols and hasattr(d,'FixColumnPartitions'):   # the repair of columns the partitioner split
            fx=d.FixColumnPartitions; fx.restype=C.c_int; fx.argtypes=[C.c_void_p,C.c_void_p,C.c_void_p]
            w=(C.c_int*m)(*[srng.randrange(n) if srng.random()<.7 else i*n//m for i in range(m)])
            r=fx(X.mesh,w,mpi.comm)
            cx.log.put(dict(op='part',a=dict(part=list(w),n=n,m=4,cols=cols),r=[r],P=[],A=whole(X)))
        for method in rng.sample([0,1,2],rng.choice([1,2])):
            p=C.c_void_p()
            if m<n or (method==2 and dim==3 and not cols): continue     # coordinate bisection of a volume mesh is for columnar meshes
            r=real(X.mesh if X else None,method,C.byref(p),mpi.comm); v=None
            if mpi.rank==0:
                v=list((C.c_int*m).from_address(p.value))
                cx.log.put(dict(op='part',a=dict(part=v,n=n,m=method,cols=cols if method==2 else []),r=[r],P=[],A=whole(X)))
            v=mpi.bcast(v)
            if set(v)==set(range(n)) and rng.random()<.6:
                mine,ok=distribute(cx,X,A,None,1,0,0,dim,method)
                S=PSnap(L,mine,A,look=2); k=dim
                own=mpi.gather([y for y,t in zip(S.s['w'][k],S.s['t'][k]) if t!=3])
                part=[-1]*m
                if mpi.rank==0:
                    for q,ys in enumerate(own):
                        for y in ys: part[y-1]=q
                cx.put('dist',dict(part=part,ring=1,attr=0,dim=dim,n=n),S,ok); L.MESH_Delete(mine)
        if X: L.MESH_Delete(X.mesh)
        cx.n=mpi.bcast(cx.log.n if mpi.rank==0 else None)

def typed(X,es):
    """make the blocks of an Exodus file of one kind of element each"""
    L=X.L
    k=[L.MR_ElementType(r) if X.g.dim==3 else L.MF_Num_Edges(r) for r in es]
    for r,t in zip(es,k): q=PFX[X.g.dim]; getattr(L,q+'_Set_GEntID')(r,10*getattr(L,q+'_GEntID')(r)+t)
def files(cx,count,hows,again):
    """meshes read from files in parallel: on one process and then distributed, or in pieces that are woven together"""
    L,mpi,rng=cx.L,cx.mpi,cx.rng; n=mpi.size; none=C.c_void_p(0)
    while cx.n<count:
        srng=random.Random(rng.random()); how=rng.choice(os.environ['PIO'].split(',') if os.environ.get('PIO') else hows); ring=rng.choice([1,1,1,0]) if how in('serial','native') else 1
        method=rng.choice([0,0,1,2]) if how in('serial','native') else 0; fn=None; A=None; dim=0; part=None
        if mpi.rank==0:
            while True:
                Src.warp=srng.random()<.3; X=exomesh(L,srng,g=parmesh(srng)); Src.warp=False
                if not X: continue
                dim=X.g.dim; es=walk(L,X.mesh,dim)
                if 2*n<=len(es)<=45 and (method!=2 or dim==2): break
                L.MESH_Delete(X.mesh)
            if srng.random()<.5: typed(X,es)
            if how=='woven':      # (made in memory, by every process on its own)
                for p in es:
                    getattr(L,PFX[dim]+'_Set_GEntDim')(p,dim)
                    if getattr(L,PFX[dim]+'_GEntID')(p)<1: getattr(L,PFX[dim]+'_Set_GEntID')(p,1)
                A=globalmesh(X); L.MESH_Delete(X.mesh)
            else:
                some=lambda lo:srng.sample(range(lo,lo+60),srng.choice([0,0,1,1,2]))
                exosets(X,'nodeset',0,some(700),[1,1,3]); exosets(X,'sideset',dim-1,some(300),[1,2,4]); exosets(X,'elemset',dim,some(500),[1,2,3])
                for i in range(srng.choice([0,1,2])):
                    t=srng.choice([DOUBLE,VECTOR,TENSOR]); d=srng.choice([0,dim]); c=srng.randint(2,6) if t==TENSOR else dim if t==VECTOR else 1
                    a=L.MAttrib_New(X.mesh,('%s%d'%(srng.choice(['temp','vel','q']),i)).encode(),t,d,c)
                    fill=srng.choice([.5,1,1])
                    for p in walk(L,X.mesh,d):
                        if srng.random()<fill: X.setval(p,a,t,c)
                m=L.MESH_New(F1)
                if how=='native': fn=scratch('pio')+'.mstk'; ok=L.MESH_WriteToFile(X.mesh,fn.encode(),F1,None) and L.MESH_InitFromFile(m,fn.encode(),None)
                else: fn=scratch('pio')+'.exo'; ok=L.MESH_ExportToExodusII(X.mesh,fn.encode(),-1,None,None,None) and L.MESH_ImportFromExodusII(m,fn.encode(),None,None)
                L.MESH_Delete(X.mesh); X.mesh=m; A=globalmesh(X); L.MESH_Delete(m)
            part=None
            while part is None: part=nonempty(srng,A,n)
            cx.log.put(dict(op='init',a={},r=[],P=[],A=A))
        fn,A,dim,part=mpi.bcast((fn,A,dim,part)); mpi.barrier(); done=chosen(cx,part)
        if how=='woven': mesh=piece(cx,A,part,dim,0); ok=L.MSTK_Weave_DistributedMeshes(mesh,dim,ring,0,mpi.comm)
        elif how=='native':
            m=C.c_void_p(0); dd=C.c_int(-1); ok=L.MSTK_Mesh_Read_Distribute(C.byref(m),fn.encode(),C.byref(dd),ring,1,method,mpi.comm); mesh=m.value; ok=1 if ok==1 and dd.value==dim else 0
        else:
            mesh=L.MESH_New(F1); o=ints([1,0 if how=='serial' else 1,ring,method,0])
            ok=L.MESH_ImportFromExodusII(mesh,fn.encode(),o,mpi.comm) if rng.random()<.5 else L.MESH_ImportFromFile(mesh,fn.encode(),rng.choice([b'exodusii',None]),o,mpi.comm)
        done(); mpi.barrier()
        if mpi.rank==0 and fn: os.unlink(fn)
        S=PSnap(L,mesh,A,look=2)
        cx.put({'pieces':'pieces','woven':'weave'}.get(how,'dist'),dict(part=part,ring=ring,attr=1,dim=dim,n=n),S,ok)
        while how!='native' and ring==1 and rng.random()<again:     # every process writes its own file; the files are read back and woven together
            fn=mpi.bcast(scratch('nem') if mpi.rank==0 else None); ext=rng.choice(['.exo','.par']); name=(fn+ext).encode(); mpi.barrier()
            ok=L.MESH_ExportToExodusII(mesh,name,-1,None,None,mpi.comm) if rng.random()<.6 else L.MESH_ExportToFile(mesh,name,b'exodusii',-1,None,None,mpi.comm)
            L.MESH_Delete(mesh); mesh=L.MESH_New(F1); mpi.barrier()
            re=rng.choice([0,0,1]); ok=1 if L.MESH_ImportFromNemesisI(mesh,name,ints([1,ring,re,0,0]),mpi.comm)==1 and ok==1 else 0; mpi.barrier()
            for q in glob.glob(fn+'.*') if mpi.rank==0 else []: os.unlink(q)
            S=PSnap(L,mesh,A,look=2)
            cx.put('nemesis',dict(part=part,ring=ring,re=re,dim=dim,n=n),S,ok)
        L.MESH_Delete(mesh)
def pio(cx,count): files(cx,count,['serial','pieces','native'],0)
def nem(cx,count): files(cx,count,['serial','pieces','woven'],.8)
GRIDS={1:lambda:meshes.quads(2,2),2:lambda:meshes.quads(3,2),3:lambda:meshes.quads(3,1),4:lambda:meshes.quads(3,3),5:lambda:meshes.hexes(2,2,1),
       6:lambda:meshes.hexes(2,1,1),7:lambda:meshes.hexes(2,2,2),8:lambda:meshes.fan2(6,True),9:lambda:meshes.tetring(4),10:lambda:meshes.quads(4,1)}
def paths(cx,count):
    """partitions enumerated by DistMC: the real mesh is distributed or woven in exactly that way; STEPS follow"""
    mpi=cx.mpi; env=os.environ
    ps=[json.loads(x) for x in open(env['PATHS'])]; ps=[p for p in ps if p['n']==mpi.size]
    if env.get('SLICE'): i,n=map(int,env['SLICE'].split('/')); ps=ps[i::n]
    else: cx.rng.shuffle(ps)
    steps=[x for x in env.get('STEPS','').split(',') if x]
    for p in ps:
        if cx.n>=count and not env.get('SLICE'): break
        for how in env['HOW'].split(','):
            if steps and p['ring']==0: continue
            c=Case(cx); g=GRIDS[p['g']]()
            if how=='dist': c.start_dist(ring=p['ring'],attr=0,atts=False,grid=g,given=p['part'])
            else: c.start_weave(ring=p['ring'],grid=g,given=p['part'])
            for x in steps: getattr(c,x)()
            c.end()

def run(start,steps,nsteps=3):
    def f(cx,count):
        while cx.n<count:
            c=Case(cx); start(c)
            for i in range(cx.rng.randint(1,nsteps)): getattr(c,cx.rng.choice(steps))()
            c.end()
    return f
def either(dist=.6,**kw):
    def f(c):
        if c.cx.rng.random()<dist: c.start_dist(ring=1,**kw)
        else: c.start_weave(ring=1)
    return f
def deleted(c):
    either()(c); c.pdel()
PROFILES=dict(
 paths=paths,
 part=partprof, pio=pio,nem=nem,
 weave=run(lambda c:c.start_weave(),['look','renum'],1),
 dist=run(lambda c:c.start_dist(),['look','renum'],2),
 upd=run(lambda c:either(atts=c.cx.rng.random()<.3)(c),['update'],3),
 gs=run(either(atts=False),['gs'],3),
 xchg=run(either(atts=False),['xchg','coords'],3),
 check=run(either(atts=False),['check'],5),
 pdel=run(deleted,['pdel','update','gs','coords','renum','look','update','check'],5),
 mix=run(either(),['update','gs','xchg','coords','check','renum','look'],6),
)
def look(self): self.cx.put('look',{},self.snap(look=2))
Case.look=look
