"""Element-level profiles: boundary cycles of faces and their edits (C03), faces and sides of regions and their edits
(C04), elements built from vertices, templates or faces (C05)."""
import itertools, ctypes as C
from gens import *
import meshes

# ------------------------------------------------------------------ query blocks
def fblock(S,rng,n=14):
    L=S.L; out=[]
    fs=list(S.u2p[2].items())
    if len(fs)>n:
        big=sorted(fs,key=lambda x:-L.MF_Num_Edges(x[1]))[:3]
        fs=big+rng.sample(fs,n-3)
    allv=list(S.u2p[0].items()); alle=list(S.u2p[1].items())
    for u,p in fs:
        d=rng.randint(0,1); vs0=S.lst(L.MF_Vertices(p,1,None))
        st=rng.choice(vs0) if rng.random()<.75 else None
        es=S.lst(L.MF_Edges(p,d,st)); sid=L.MV_ID(st) if st else 0
        some_v=[(a,b) for a,b in allv if b in vs0 or rng.random()<.2]; some_e=[(a,b) for a,b in alle if b in es or rng.random()<.2]
        nn=C.c_int(0); xyz=(C.c_double*(3*64))(); L.MF_Coords(p,C.byref(nn),xyz)
        out.append(dict(f=u,dir=d,st=S.uid(0,st) if st else 0,es=S.uids(1,es),vs=S.uids(0,S.lst(L.MF_Vertices(p,d,st))),
            eid=S.idarr(L.MF_EdgeIDs,p,1,d,sid),vid=S.idarr(L.MF_VertexIDs,p,0,d,sid),
            ed=[L.MF_EdgeDir(p,e) for e in es],
            fw=S.uids(0,vs0),xyz=[[int(round(xyz[3*i+j]*S.scale)) for j in range(3)] for i in range(nn.value)],
            n=[L.MF_Num_Edges(p),L.MF_Num_Vertices(p),L.MF_ElementType(p)],
            qe=[a for a,_ in some_e],ue=[a for a,b in some_e if L.MF_UsesEntity(p,b,1)],
            qv=[a for a,_ in some_v],uv=[a for a,b in some_v if L.MF_UsesEntity(p,b,0)]))
    return out
def rblock(S,rng,n=14,sides=True):
    L=S.L; out=[]
    rs=list(S.u2p[3].items())
    if len(rs)>n: rs=rng.sample(rs,n)
    big=sorted(S.u2p[3].items(),key=lambda x:-L.MR_Num_Faces(x[1]))[:1]
    rs+=[x for x in big if x not in rs]
    for u,p in rs:
        fs=S.lst(L.MR_Faces(p)); allf=list(S.u2p[2].items())
        some=[(a,b) for a,b in allf if b in fs or rng.random()<.3]
        ev=[(a,b) for a,b in S.u2p[0].items() if rng.random()<.4]; ee=[(a,b) for a,b in S.u2p[1].items() if rng.random()<.4]
        # numbering of the vertices: only asked when the faces are recorded as pointing out of the region
        use={}
        for f in fs:
            d=L.MR_FaceDir(p,f)
            for e,x in S.fcyc(f): use[e]=use.get(e,0)+(1 if x==d else -1)
        coh=not any(use.values())
        nn=C.c_int(0); xyz=(C.c_double*(3*512))()
        if coh: L.MR_Coords(p,C.byref(nn),xyz)
        vs=S.uids(0,S.lst(L.MR_Vertices(p))) if coh else []
        out.append(dict(r=u,fs=S.uids(2,fs),fid=S.idarr(L.MR_FaceIDs,p,2),d=[L.MR_FaceDir(p,f) for f in fs],di=[L.MR_FaceDir_i(p,i) for i in range(len(fs))],
            non=[L.MR_FaceDir(p,b) for a,b in some if b not in fs],
            qf=[a for a,_ in some],uf=[a for a,b in some if L.MR_UsesEntity(p,b,2)],
            qv=[a for a,_ in ev],uv=[a for a,b in ev if L.MR_UsesEntity(p,b,0)],qe=[a for a,_ in ee],ue=[a for a,b in ee if L.MR_UsesEntity(p,b,1)],
            coh=1 if coh else 0,ty=L.MR_ElementType(p),vs=vs,vid=S.idarr(L.MR_VertexIDs,p,0) if coh else [],
            es=S.uids(1,S.lst(L.MR_Edges(p))),eid=S.idarr(L.MR_EdgeIDs,p,1),rid=S.idarr(L.MR_AdjRegionIDs,p,3),
            rr=S.uids(3,S.lst(L.MR_AdjRegions(p))),n=[L.MR_Num_Faces(p),L.MR_Num_Edges(p),L.MR_Num_Vertices(p) if coh else 0],
            xyz=[[int(round(xyz[3*i+j]*S.scale)) for j in range(3)] for i in range(nn.value)]))
    return out
def sblock(S,rng,n=20):
    """regions on the sides of faces, by pointer and by number"""
    L=S.L; out=[]
    fs=list(S.u2p[2].items())
    if len(fs)>n: fs=rng.sample(fs,n)
    for u,p in fs:
        out.append(dict(f=u,s=[S.uid(3,L.MF_Region(p,i)) for i in (0,1)],rs=S.uids(3,S.lst(L.MF_Regions(p))),rid=S.idarr(L.MF_RegionIDs,p,3),
                        sid=[_rid(S,L.MF_RegionID(p,i)) for i in (0,1)]))
    return out
def _rid(S,i):
    if i==0: return 0
    for u,p in S.u2p[3].items():
        if S.L.MR_ID(p)==i: return u
    return -1
def blocks(S,rng,which='fr'):
    def f():
        o={}
        if 'f' in which: o['fc']=fblock(S,rng)
        if 'r' in which: o['rc']=rblock(S,rng); o['sc']=sblock(S,rng)
        return o
    return f

# ------------------------------------------------------------------ face edits
class FaceEditor(Editor):
    def newpath(self,a,b,n):
        """n new edges from vertex a to vertex b"""
        S=self.S; r=self.rng
        vs=[a]+[self.mkv() for _ in range(n-1)]+[b]
        es=[]
        for i in range(n):
            x,y=vs[i],vs[i+1]
            if r.random()<.5: x,y=y,x
            p=S.mke(S.u2p[0][x],S.u2p[0][y],[1,1]); S.sync(); u=S.uid(1,p); es.append(u)
            S.emit('newe',{'v':[x,y],'c':[1,1]},0,q=False)
        return vs,es
    def mkv(self):
        S=self.S; xyz=self.rxyz()
        p=S.mkv([x/S.scale for x in xyz],[1,1]); S.emit('newv',{'xyz':xyz,'c':[1,1]},0,q=False)
        return S.uid(0,p)
    def op_repe(self,w):
        S,L,r=self.S,self.S.L,self.rng
        fs=[f for f in w.F if not w.fr[f] and len(set(w.fv[f]))==len(w.fv[f]) and not self.touches(w,f)]
        if not fs or len(w.V)>70: return False
        f=r.choice(fs); c=w.fv[f]; es=w.fe[f]; n=len(c)
        nold=min(n-1,r.choice([1,1,2,2,3,3,4,5,n-2,n-1])); nold=max(1,nold)
        i=r.randrange(n)
        keepn=n-nold
        lo=max(1,3-keepn); hi=min(30-keepn,r.choice([1,2,3,4,5,6,8,14,25]))
        if hi<lo: return False
        nnu=r.randint(lo,hi)
        a=c[i]; b=c[(i+nold)%n]
        old=[es[(i+k)%n] for k in range(nold)]
        if nnu==1 or r.random()<.1:
            com=[e for e in w.ve[a] if b in w.ev[e]]
            if nnu==1 and com:
                if com[0] in es: return False
                vs,nu=[a,b],[com[0]]
            else: vs,nu=self.newpath(a,b,nnu)
        else: vs,nu=self.newpath(a,b,nnu)
        path=[[vs[k],nu[k]] for k in range(nnu)]
        P=S.u2p[2][f]; lst=[S.u2p[1][e] for e in nu]
        if r.random()<.4: lst=lst[::-1]
        how=r.randint(0,2)
        if how==0: L.MF_Replace_Edges_i(P,nold,i,nnu,ptrs(lst))
        else:
            o=[S.u2p[1][e] for e in old]
            if how==2: o=o[::-1]
            L.MF_Replace_Edges(P,nold,ptrs(o),nnu,ptrs(lst))
        self.emit('repe',{'f':f,'a':a,'b':b,'path':path,'how':how},0)
        return True
    def touches(self,w,f): return (2,f) in w.kdeps()
    def op_reme(self,w):
        """an edge is taken out of a face, and the face is then deleted"""
        S,L,r=self.S,self.S.L,self.rng
        fs=[f for f in w.F if not w.fr[f] and not self.touches(w,f)]
        if len(fs)<2: return False
        f=r.choice(fs); i=r.randrange(len(w.fe[f])); e=w.fe[f][i]; P=S.u2p[2][f]
        raw=S.fcyc(P)
        L.MF_Rem_Edge(P,S.u2p[1][e])
        got=S.fcyc(P); nn=L.MF_Num_Edges(P); up=S.uids(2,S.lst(L.ME_Faces(S.u2p[1][e])))
        L.MF_Delete(P,0)
        self.emit('reme',{'f':f,'e':e,'raw':raw},{'raw':got,'n':nn,'up':up}); return True
    def op_reve(self,w):
        """the use of an edge is reversed and reversed back"""
        S,L,r=self.S,self.S.L,self.rng
        if not w.F: return False
        f=r.choice(w.F); i=r.randrange(len(w.fe[f])); e=w.fe[f][i]; P=S.u2p[2][f]
        raw=S.fcyc(P); one=lambda: L.MF_Rev_EdgeDir_i(P,i) if r.random()<.5 else L.MF_Rev_EdgeDir(P,S.u2p[1][e])
        one(); got=S.fcyc(P); ed=L.MF_EdgeDir(P,S.u2p[1][e]); one()
        self.emit('reve',{'f':f,'i':i+1,'raw':raw},{'raw':got,'d':ed}); return True
    def op_newbig(self,w):
        """a new face over new vertices"""
        S,L,r=self.S,self.S.L,self.rng
        n=r.choice([3,4,5,8,15,22,29,30])
        if len(w.V)+n>90: return False
        vs=[self.mkv() for _ in range(n)]
        F=S.mkfv([S.u2p[0][v] for v in vs],[2,1])
        S.sync(); self.emit('newfv',{'v':vs,'c':[2,1]},0); return True

def faces(L,log,rng,count):
    while log.n<count:
        t=rng.random()
        if t<.3: g=meshes.ngon(rng.choice([3,4,5,6,8,12,20,25,29,30]))
        elif t<.7: g=meshes.rand2(rng)
        elif t<.85: g=meshes.extrude(meshes.ngon(rng.choice([3,5,9,16,24,29])))
        else: g=meshes.rand3(rng,False)
        g=meshes.shuffle(g,rng)
        S=Session(L,rng.choice(REPS),log,obs=False)
        Builder(S,g,rng,rng.choice(['edges','edges','verts']),'flat').build()
        ex=blocks(S,rng,'f')
        S.emit('init',extra=ex)
        ed=FaceEditor(S,rng,70); ed.extra=ex
        W={'repe':8,'reme':1,'reve':2,'newbig':1,'fsplite':2,'split':1,'joinf':1,'del':.5}
        for _ in range(rng.randint(5,12)):
            if ed.step(W) is None: break

# ------------------------------------------------------------------ region edits
class RegionEditor(FaceEditor):
    def pick(self,w): return self.rng.choice(w.R) if self.rng.random()<.6 else max(w.R,key=lambda x:len(w.rf[x]))
    def index(self,n): return self.rng.randrange(n)
    def twin(self,w,f):
        """a new face with the boundary of f, walked either way; returns its use for every use of f"""
        S,L,r=self.S,self.S.L,self.rng
        raw=S.fcyc(S.u2p[2][f])
        same=r.random()<.5
        seq=raw if same else [[e,1-d] for e,d in reversed(raw)]
        k=r.randrange(len(seq)); seq=seq[k:]+seq[:k]
        p=S.mkf([S.u2p[1][e] for e,_ in seq],[d for _,d in seq],w.cls(2,f)); S.sync(); u=S.uid(2,p)
        E=w.s['E']; cyc=[[E[e-1][0] if d else E[e-1][1],e] for e,d in seq]
        S.emit('newf',{'cyc':cyc,'c':w.cls(2,f)},0,q=False)
        return u,same
    def halves(self,w,f):
        """two new faces that together cover f, divided by a new edge"""
        S,L,r=self.S,self.S.L,self.rng
        raw=S.fcyc(S.u2p[2][f]); n=len(raw)
        if n<4: return None
        i=r.randrange(n); j=(i+r.randint(2,n-2))%n
        E=w.s['E']; st=lambda x: E[x[0]-1][0] if x[1] else E[x[0]-1][1]
        a,b=st(raw[i]),st(raw[j])
        if any(b in w.ev[e] for e in w.ve[a]): return None
        p=S.mke(S.u2p[0][a],S.u2p[0][b],[1,1]); S.sync(); e=S.uid(1,p); S.emit('newe',{'v':[a,b],'c':[1,1]},0,q=False)
        arc=lambda x,y: [raw[(x+k)%n] for k in range((y-x)%n)]
        out=[]
        for seq,close in ((arc(i,j),[e,0]),(arc(j,i),[e,1])):
            seq=seq+[close]; same=r.random()<.5
            if not same: seq=[[q,1-d] for q,d in reversed(seq)]
            ev=dict(w.ev); ev[e]=(a,b)
            f2=S.mkf([S.u2p[1][q] for q,_ in seq],[d for _,d in seq],w.cls(2,f)); S.sync(); u=S.uid(2,f2)
            S.emit('newf',{'cyc':[[ev[q][0] if d else ev[q][1],q] for q,d in seq],'c':w.cls(2,f)},0,q=False)
            out.append((u,same))
        return out
    def op_repf(self,w):
        S,L,r=self.S,self.S.L,self.rng
        rs=[x for x in w.R if (3,x) not in w.kdeps()]
        if not rs: return False
        R=r.choice(rs) if r.random()<.6 else max(rs,key=lambda x:len(w.rf[x])); fs=list(w.rf[R]); r.shuffle(fs)
        k=r.choice([1,1,2,3,5,12,40]); k=min(k,len(fs))
        pairs=[]     # joins: two faces of the region that share exactly one edge, become one new face
        old=[];new=[]
        used=set()
        for f in fs[:k]:
            if f in used: continue
            d=w.rd[R][f]; t=r.random()
            if t<.3:
                h=self.halves(w,f)
                if h: old.append(f); new+=[(u,d if s else 1-d) for u,s in h]; used.add(f); continue
            if t<.5:
                m=self.joined(w,R,f,used)
                if m: g,u,dd=m; old+=[f,g]; new.append((u,dd)); used|={f,g}; continue
            u,s=self.twin(w,f); old.append(f); new.append((u,d if s else 1-d)); used.add(f)
        r.shuffle(old); r.shuffle(new)
        P=S.u2p[3][R]
        if len(old)==1 and len(new)==1 and r.random()<.6:
            i=S.uids(2,S.lst(L.MR_Faces(P))).index(old[0])
            L.MR_Replace_Face_i(P,i,S.u2p[2][new[0][0]],new[0][1])
        else:
            L.MR_Replace_Faces(P,len(old),ptrs([S.u2p[2][f] for f in old]),len(new),ptrs([S.u2p[2][u] for u,_ in new]),ints([d for _,d in new]))
        self.emit('repf',{'r':R,'old':old,'new':[list(x) for x in new]},0); return True
    def joined(self,w,R,f,used):
        S,r=self.S,self.rng
        raw=S.fcyc(S.u2p[2][f]); E=w.s['E']
        for q,_ in raw:
            gs=[g for g in w.rf[R] if g!=f and g not in used and q in w.fe[g]]
            if len(gs)!=1: continue
            g=gs[0]
            if len(set(w.fe[f])&set(w.fe[g]))!=1 or len(set(w.fv[f])&set(w.fv[g]))!=2 or len(w.fe[f])+len(w.fe[g])-2>30: continue
            a=raw; b=S.fcyc(S.u2p[2][g])
            if w.rd[R][f]!=w.rd[R][g]: b=[[x,1-d] for x,d in reversed(b)]
            i=[x for x,_ in a].index(q); j=[x for x,_ in b].index(q)
            if a[i][1]==b[j][1]: continue
            seq=a[i+1:]+a[:i]+b[j+1:]+b[:j]
            s=r.random()<.5
            if not s: seq=[[x,1-d] for x,d in reversed(seq)]
            u=S.mkf([S.u2p[1][x] for x,_ in seq],[d for _,d in seq],w.cls(2,f)); S.sync(); u=S.uid(2,u)
            S.emit('newf',{'cyc':[[E[x-1][0] if d else E[x-1][1],x] for x,d in seq],'c':w.cls(2,f)},0,q=False)
            d=w.rd[R][f]
            return g,u,(d if s else 1-d)
        return None
    def op_revf(self,w):
        S,L,r=self.S,self.S.L,self.rng
        if not w.R: return False
        R=self.pick(w); P=S.u2p[3][R]
        fs=S.uids(2,S.lst(L.MR_Faces(P))); i=self.index(len(fs)); f=fs[i]
        if any((3,x) in w.kdeps() for x in w.fr[f]): return False
        if r.random()<.5: L.MR_Rev_FaceDir(P,S.u2p[2][f])
        else: L.MR_Rev_FaceDir_i(P,i)
        self.emit('revf',{'r':R,'f':f},0); return True
    def op_setf(self,w):
        S,L,r=self.S,self.S.L,self.rng
        if not w.R: return False
        R=self.pick(w); P=S.u2p[3][R]; fs=S.uids(2,S.lst(L.MR_Faces(P))); i=self.index(len(fs)); f=fs[i]; d=r.randint(0,1)
        if len(w.fr[f])!=1: return False
        if r.random()<.5: L.MR_Set_FaceDir(P,S.u2p[2][f],d)
        else: L.MR_Set_FaceDir_i(P,i,d)
        self.emit('setf',{'r':R,'f':f,'d':d},0); return True
    def op_remf(self,w):
        """faces are taken out of a region and given back"""
        S,L,r=self.S,self.S.L,self.rng
        if not w.R: return False
        R=self.pick(w); P=S.u2p[3][R]
        k=min(r.choice([1,2,3,10,34]),len(w.rf[R])-1); fs=r.sample(w.rf[R],k)
        for f in fs: L.MR_Rem_Face(P,S.u2p[2][f])
        got=[[S.uid(2,x),L.MR_FaceDir_i(P,i)] for i,x in enumerate(S.lst(L.MR_Faces(P)))]
        side=[[S.uid(3,L.MF_Region(S.u2p[2][f],i)) for i in (0,1)] for f in fs]
        ds=[w.rd[R][f] for f in fs]
        L.MR_Replace_Faces(P,0,None,k,ptrs([S.u2p[2][f] for f in fs]),ints(ds))
        self.emit('remf',{'r':R,'fs':fs},{'left':got,'side':side}); return True

def regions(L,log,rng,count):
    while log.n<count:
        t=rng.random()
        if t<.12: g=meshes.bigpoly(rng.choice([3,3,4]))
        elif t<.3: g=meshes.extrude(meshes.ngon(rng.choice([5,9,16,24,29,30])))
        else: g=meshes.rand3(rng,rng.random()<.3)
        g=meshes.shuffle(g,rng)
        S=Session(L,rng.choice(REPS),log,obs=False)
        Builder(S,g,rng,rng.choice(['edges','edges','verts']),'flat').build()
        ex=blocks(S,rng,'r')
        S.emit('init',extra=ex)
        ed=RegionEditor(S,rng,70); ed.extra=ex
        W={'repf':5,'revf':3,'setf':1,'remf':2,'split':.5,'fsplite':1,'joinf':.5,'joinr':.5}
        for _ in range(rng.randint(4,10)):
            if ed.step(W) is None: break

def bigregions(L,log,rng,count):
    """regions whose face directions fill several words: every face index is reversed, set, removed and replaced sooner or later"""
    class Ed(RegionEditor):
        pick=lambda s,w: max(w.R,key=lambda x:len(w.rf[x]))
        def index(s,n):
            r=s.rng; return min(n-1,r.choice([r.randrange(n),r.randrange(n),30,31,32,33,63,64,n-1,0]))
    while log.n<count:
        g=rng.choice([meshes.bigpoly(3),meshes.bigpoly(3),meshes.bigpoly(4),meshes.agglom(meshes.hexes(2,2,8),[list(range(16)),list(range(16,32))]),
                      meshes.extrude(meshes.ngon(30))])
        g=meshes.shuffle(g,rng)
        S=Session(L,rng.choice(REPS),log,obs=False)
        Builder(S,g,rng,rng.choice(['edges','verts']),'flat').build()
        ex=blocks(S,rng,'r')
        S.emit('init',extra=ex)
        ed=Ed(S,rng,90); ed.extra=ex
        W={'repf':2,'revf':6,'setf':2,'remf':5}
        for _ in range(rng.randint(8,14)):
            if ed.step(W) is None: break

# ------------------------------------------------------------------ elements
_AUT={}
def automorphisms(n):
    """renumberings of a standard element that keep the documented numbering (orientation preserving)"""
    if n not in _AUT:
        can=lambda f: min(tuple(f[i:]+f[:i]) for i in range(len(f)))
        base={can(tuple(f)) for f in meshes.STDF[n]}
        _AUT[n]=[p for p in itertools.permutations(range(n)) if {can(tuple(p[i] for i in f)) for f in meshes.STDF[n]}==base]
    return _AUT[n]
def elems(L,log,rng,count):
    MIX=[lambda:meshes.hexes(2,1,1),lambda:meshes.hexes(1,1,1),lambda:meshes.hexes(2,2,1),lambda:meshes.prisms(1,1,1),lambda:meshes.prisms(2,1,1),
         meshes.pyramids,meshes.mixed3,lambda:meshes.tets(1,1,1),meshes.tets5,lambda:meshes.tetfan(rng.randint(2,6),rng.random()<.5),meshes.tets2face,
         meshes.tetvertex,meshes.tetedge,lambda:meshes.extrude(meshes.mixed2(2,1,rng)),lambda:meshes.extrude(meshes.polys(rng)),
         lambda:meshes.extrude(meshes.ngon(rng.choice([5,6,9,20]))),lambda:meshes.agglom(meshes.hexes(3,1,1),[[0,1],[2]]),lambda:meshes.bigpoly(2),
         lambda:meshes.tetring(rng.choice([3,4])) ]
    while log.n<count:
        g=rng.choice(MIX)()
        if g.dim==3 and len(g.cells)>2 and rng.random()<.3: g=meshes.subset(g,rng,.7)
        S=Session(L,rng.choice(REPS),log,obs=False)
        ex=blocks(S,rng,'fr')
        mode=rng.choice(['none','some','some','all'])
        order=list(range(len(g.pts))); rng.shuffle(order); vp={}
        cl=rng.choice([None,[3,1],[2,1]])
        for i in order: vp[i]=S.mkv(g.pts[i],cl)
        S.sync()
        edges=set(); fl={}
        for c in g.cells:
            for f in c:
                fl.setdefault(frozenset(f),tuple(f))
                for i in range(len(f)): edges.add(frozenset((f[i],f[(i+1)%len(f)])))
        pe={'none':0,'some':rng.choice([.2,.5]),'all':1}[mode]; pf=rng.choice([0,.3,1]) if mode!='none' else 0
        ee={}
        for e in edges:
            if rng.random()<pe:
                a,b=rng.sample(sorted(e),2); ee[e]=S.mke(vp[a],vp[b],[1,1] if rng.random()<.5 else None)
        for k,f in fl.items():
            if rng.random()<pf:
                f=list(f) if rng.random()<.5 else list(f)[::-1]; i=rng.randrange(len(f)); f=f[i:]+f[:i]
                S.mkfv([vp[v] for v in f],[2,1])
        S.emit('init',extra=ex)
        cells=list(range(len(g.cells))); rng.shuffle(cells)
        for ci in cells:
            std=g.std[ci] if g.std else None; c=[tuple(f) for f in g.cells[ci]]
            way=rng.choice(['std','std','std','tmpl','faces']) if std else rng.choice(['tmpl','faces'])
            U=lambda vs: [S.uid(0,vp[v]) for v in vs]
            if way=='std':
                p=rng.choice(automorphisms(len(std))); vs=[std[i] for i in p]
                R=L.MR_New(S.mesh); L.MR_Set_Vertices(R,len(vs),ptrs([vp[v] for v in vs]),0,None)
                S.cls(3,R,[3,1]); S.emit('newrv',{'v':U(vs),'t':[],'c':[3,1]},0,extra=ex)
            elif way=='tmpl':
                vs=sorted({v for f in c for v in f}); rng.shuffle(vs); ix={v:i for i,v in enumerate(vs)}
                rng.shuffle(c); t=[]
                for f in c: i=rng.randrange(len(f)); t.append(f[i:]+f[:i])
                rows=[ints([len(f)]+[ix[v] for v in f]) for f in t]
                R=L.MR_New(S.mesh); L.MR_Set_Vertices(R,len(vs),ptrs([vp[v] for v in vs]),len(t),ptrs([C.addressof(x) for x in rows]))
                S.cls(3,R,[3,1]); S.emit('newrv',{'v':U(vs),'t':[U(f) for f in t],'c':[3,1]},0,extra=ex)
            else:
                w=View(S.snap); by={}
                for f in w.F: by.setdefault(frozenset(w.fv[f]),f)
                rng.shuffle(c); us=[]
                for f in c:
                    k=frozenset(U(f))
                    if k not in by:
                        h=list(f) if rng.random()<.5 else list(f)[::-1]; i=rng.randrange(len(h)); h=h[i:]+h[:i]
                        F=S.mkfv([vp[v] for v in h],[2,1]); S.emit('newfv',{'v':U(h),'c':[2,1]},0)
                        by[k]=S.uid(2,F); w=View(S.snap)
                    u=by[k]; fv=w.fv[u]; i=fv.index(U(f)[0]); us.append([u,1 if fv[(i+1)%len(fv)]==U(f)[1] else 0])
                R=S.mkr([S.u2p[2][u] for u,_ in us],[d for _,d in us],[3,1])
                S.emit('newr',{'u':us,'c':[3,1]},0,extra=ex)
        # what the elements become under a few edits
        if rng.random()<.5:
            ed=RegionEditor(S,rng,60); ed.extra=ex
            for _ in range(rng.randint(1,3)):
                if ed.step({'split':1,'fsplite':2,'joinf':2,'joinr':1,'del':.5,'collapse':1}) is None: break
