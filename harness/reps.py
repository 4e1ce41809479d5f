"""The same mesh held in different representations (C02): build it cell by cell from vertices, take cells away and put
them back, and log the answers of the query interface in terms of vertices (edges and faces that a reduced
representation does not store have no identity of their own)."""
import ctypes as C
from drv import *
from mstk import *
import meshes,os
from xform import scratch
SOLID=(F1,F4,R1); SURF=(F1,F4)
def mesh_for(rng):
    if rng.random()<.3: g=meshes.rand2(rng,True); rep=rng.choice(SURF)
    else:
        for _ in range(50):
            g=meshes.rand3(rng,rng.random()<.3)
            if g.std and all(g.std) and len(g.pts)<=24: break
        else: g=meshes.mixed3()
        rep=rng.choice(SOLID+(R1,))
    return meshes.shuffle(g,rng),rep
class Held:
    def __init__(s,L,g,rep,rng):
        s.L,s.g,s.rep,s.rng=L,g,rep,rng; s.m=L.MESH_New(rep); s.V=[]; s.cell={}
        for p in g.pts:
            v=L.MV_New(s.m); L.MV_Set_Coords(v,dbl(p)); L.MV_Set_GEntDim(v,rng.randint(0,g.dim)); L.MV_Set_GEntID(v,rng.randint(1,9)); s.V.append(v)
        s.vid={v:i+1 for i,v in enumerate(s.V)}; s.byid={L.MV_ID(v):i+1 for i,v in enumerate(s.V)}
        order=list(range(len(g.cells))); rng.shuffle(order)
        for c in order: s.add(c)
    def cells(s): return s.L.MESH_Num_Regions(s.m) if s.g.dim==3 else s.L.MESH_Num_Faces(s.m)
    def walk(s,m,k):
        i=C.c_int(0); f=s.L.MESH_Next_Vertex if k==0 else s.L.MESH_Next_Region if s.g.dim==3 else s.L.MESH_Next_Face; o=[]
        while True:
            p=f(m,C.byref(i))
            if not p: return o
            o.append(p)
    def adopt(s,m,rep,ok,byorder=True):
        """go on with another mesh that is to be the same: vertices in the same order, and cells too unless they are told apart by their vertices"""
        old=[s.vid[v] for v in s.walk(s.m,0)]; oc=[s.cid(r)-1 for r in s.walk(s.m,1)]; new=s.walk(m,0)
        if len(new)!=len(old) or ok!=1: return False
        if not byorder:                                 # an Exodus file may order the vertices its own way
            xo,xn=s.xyz(s.walk(s.m,0)),s.xyz(new)
            if sorted(xo)!=sorted(xn): return False
            new=[new[xn.index(x)] for x in xo]
        V=list(s.V)
        for u,v in zip(old,new): V[u-1]=v
        s.L.MESH_Delete(s.m); s.m,s.rep,s.V=m,rep,V
        for i in reversed(range(s.L.MESH_Num_MSets(m))): s.L.MSet_Delete(s.L.MESH_MSet(m,i))   # sets keep what is deleted later
        s.vid={v:i+1 for i,v in enumerate(V)}; s.byid={s.L.MV_ID(v):i+1 for i,v in enumerate(V)}
        rs=s.walk(m,1)
        if not byorder:
            by={frozenset(v for f in s.loops(c) for v in f):c for c in s.cell}
            oc=[by.get(frozenset(s.vid.get(x,0) for x in s.lst((s.L.MR_Vertices(r) if s.g.dim==3 else s.L.MF_Vertices(r,1,None)))),-1) for r in rs]
        cell={c:r for c,r in zip(oc,rs) if c>=0}
        if set(cell)!=set(s.cell) or len(rs)!=len(cell): return False
        s.cell=cell; return True
    def class_(s): return [[s.L.MV_GEntDim(v),s.L.MV_GEntID(v)] for v in s.V]+[[getattr(s.L,x+'_GEntDim')(s.cell[c]),getattr(s.L,x+'_GEntID')(s.cell[c])] for x in ['MR' if s.g.dim==3 else 'MF'] for c in sorted(s.cell)]
    def xyz(s,V=None):
        b=(C.c_double*3)(); o=[]
        for v in V or s.V: s.L.MV_Coords(v,b); o.append([repr(x+0.) for x in b])
        return o
    def other(s):
        """the same mesh by way of a copy or a file -> name of the step, or None where there is no such way"""
        L,rng=s.L,s.rng; d=s.g.dim; how=rng.choice(['copy','save','save','exo','gmv'] if d==3 else ['copy','save'])
        if how=='copy':
            m=L.MESH_New(s.rep); ok=L.MESH_Copy(s.m,m,rng.randrange(2),rng.randrange(2)); return how,s.adopt(m,s.rep,ok)
        if how=='exo' and (s.rep==R1 or len({v for c in s.cell for f in s.loops(c) for v in f})<len(s.V)): how='gmv'
        fn=scratch('r'+how)+('.exo' if how=='exo' else '.'+how); rep=rng.choice((F1,F4,R1) if d==3 and how!='exo' else SURF)
        if how=='save':
            frep=R1 if s.rep==R1 else rng.choice((F1,F4,R1)); rep=rep if frep==R1 else rng.choice(SURF); by=True
            ok=L.MESH_WriteToFile(s.m,fn.encode(),frep,None)
            m=L.MESH_New(5 if rng.random()<.3 and d==3 else rep); ok=ok and L.MESH_InitFromFile(m,fn.encode(),None); rep=L.MESH_RepType(m)
        elif how=='exo':
            ok=L.MESH_ExportToExodusII(s.m,fn.encode(),-1,None,None,None); m=L.MESH_New(rep); ok=ok and L.MESH_ImportFromExodusII(m,fn.encode(),None,None); by=False
        else:
            ok=L.MESH_ExportToGMV(s.m,fn.encode(),-1,None,None,None); m=L.MESH_New(rep); ok=ok and L.MESH_ImportFromGMV(m,fn.encode(),None); by=True
        os.unlink(fn)
        return how,s.adopt(m,rep,ok,by)
    def loops(s,c):
        c=s.g.cells[c]
        return [[v+1 for v in f] for f in (c if s.g.dim==3 else [c])]
    def add(s,c):
        L=s.L
        if s.g.dim==3:
            t=s.g.std[c]; r=L.MR_New(s.m); L.MR_Set_GEntDim(r,3); L.MR_Set_GEntID(r,s.gid(c))
            L.MR_Set_Vertices(r,len(t),ptrs([s.V[i] for i in t]),0,None)
        else:
            t=s.g.cells[c]; r=L.MF_New(s.m); L.MF_Set_GEntDim(r,2); L.MF_Set_GEntID(r,s.gid(c))
            L.MF_Set_Vertices(r,len(t),ptrs([s.V[i] for i in t]))
        s.cell[c]=r
    def gid(s,c): return 1+c%4
    def rem(s,c):
        L=s.L; r=s.cell.pop(c); stored=s.rep in (F1,F4)
        fs=s.lst(L.MR_Faces(r)) if s.g.dim==3 and stored else []
        es=s.lst(L.MR_Edges(r)) if s.g.dim==3 and stored else s.lst(L.MF_Edges(r,1,None)) if stored else []
        (L.MR_Delete if s.g.dim==3 else L.MF_Delete)(r,0)
        for f in fs:
            if not s.lst(L.MF_Regions(f)): L.MF_Delete(f,0)
        for e in es:
            if not s.lst(L.ME_Faces(e)): L.ME_Delete(e,0)
    def lst(s,l):
        if not l: return []
        o=[s.L.List_Entry(l,i) for i in range(s.L.List_Num_Entries(l))]; s.L.List_Delete(l); return o
    def pair(s,e): return sorted((s.vid.get(s.L.ME_Vertex(e,0),0),s.vid.get(s.L.ME_Vertex(e,1),0)))
    def loop(s,f,d=1,v=None): return [s.vid.get(x,0) for x in s.lst(s.L.MF_Vertices(f,d,v))]
    def cid(s,r):
        for c,p in s.cell.items():
            if p==r: return c+1
        return 0
    def answers(s):
        L=s.L; dim=s.g.dim; q=dict(v=[],e=[],f=[],r=[],none=[],se=[],sf=[],fe=[],re=[],rf=[])
        q['n']=[L.MESH_Num_Vertices(s.m),L.MESH_Num_Regions(s.m) if dim==3 else L.MESH_Num_Faces(s.m)]
        if s.rep in (F1,F4): q['n']+=[L.MESH_Num_Edges(s.m),L.MESH_Num_Faces(s.m)]
        used=sorted({v for c in s.cell for f in s.loops(c) for v in f})
        for u in used:
            v=s.V[u-1]
            x=dict(v=u,VV=[s.vid.get(y,0) for y in s.lst(L.MV_AdjVertices(v))],VE=[s.pair(e) for e in s.lst(L.MV_Edges(v))],
                   VF=[s.loop(f) for f in s.lst(L.MV_Faces(v))],VR=[s.cid(r) for r in s.lst(L.MV_Regions(v))] if dim==3 else [],
                   n=[L.MV_Num_AdjVertices(v),L.MV_Num_Edges(v),L.MV_Num_Faces(v),L.MV_Num_Regions(v) if dim==3 else 0])
            n=C.c_int(0); a=(C.c_int*512)(); x['rid']=[]
            if dim==3:
                L.MV_RegionIDs(v,C.byref(n),a); k={L.MR_ID(p):c+1 for c,p in s.cell.items()}
                x['rid']=[k.get(a[i],0) for i in range(n.value)]
            L.MV_AdjVertexIDs(v,C.byref(n),a); x['vid']=s.vids(a,n)
            q['v'].append(x)
        pairs=sorted({tuple(sorted((f[i],f[(i+1)%len(f)]))) for c in s.cell for f in s.loops(c) for i in range(len(f))})
        s.rng.shuffle(pairs)
        for a,b in pairs[:12]:
            if s.rng.random()<.5: a,b=b,a
            e=L.MVs_CommonEdge(s.V[a-1],s.V[b-1]); x=dict(a=a,b=b,e=0,EF=[],ER=[],n=[0,0],u=[])
            if e:
                x.update(e=s.pair(e),EF=[s.loop(f) for f in s.lst(L.ME_Faces(e))],ER=[s.cid(r) for r in s.lst(L.ME_Regions(e))] if dim==3 else [],
                     n=[L.ME_Num_Faces(e),L.ME_Num_Regions(e) if dim==3 else 0],u=[w for w in used if L.ME_UsesEntity(e,s.V[w-1],0)])
                n=C.c_int(0); ia=(C.c_int*512)(); x.update(vid=[s.byid.get(L.ME_VertexID(e,i),0) for i in (0,1)],rid=[],opp=[s.vid.get(L.ME_OppVertex(e,s.V[a-1]),0),s.byid.get(L.ME_OppVertexID(e,L.MV_ID(s.V[a-1])),0)])
                if dim==3: L.ME_RegionIDs(e,C.byref(n),ia); x['rid']=s.rids(ia,n)
            else: x.update(e=[0,0],vid=[0,0],rid=[],opp=[0,0])
            q['e'].append(x)
        ps=set(pairs)
        for _ in range(6):
            a,b=s.rng.choice(used),s.rng.choice(used)
            if a!=b and (min(a,b),max(a,b)) not in ps: q['none'].append([a,b,1 if L.MVs_CommonEdge(s.V[a-1],s.V[b-1]) else 0])
        cs=list(s.cell); s.rng.shuffle(cs); fl=[]
        for c in cs[:5]:
            r=s.cell[c]
            if dim==2: fl.append(r); continue
            fs=s.lst(L.MR_Faces(r)); es=s.lst(L.MR_Edges(r)); fl+=[s.rng.choice(fs),s.rng.choice(fs)] if fs else []
            n=C.c_int(0); ia=(C.c_int*512)(); L.MR_VertexIDs(r,C.byref(n),ia); vid=s.vids(ia,n)
            q['r'].append(dict(c=c+1,vid=vid,RF=[s.loop(f,1 if L.MR_FaceDir(r,f) else 0) for f in fs],ri=[s.loop(f,1 if L.MR_FaceDir_i(r,i) else 0) for i,f in enumerate(s.lst(L.MR_Faces(r)))],
                 RE=[s.pair(e) for e in es],RV=[s.vid.get(v,0) for v in s.lst(L.MR_Vertices(r))],
                 RR=[s.cid(x) for x in s.lst(L.MR_AdjRegions(r))] if s.rep!=R1 else [],ty=L.MR_ElementType(r),
                 n=[L.MR_Num_Faces(r),L.MR_Num_Edges(r),L.MR_Num_Vertices(r)],uv=[w for w in used if L.MR_UsesEntity(r,s.V[w-1],0)],
                 ue=[L.MR_UsesEntity(r,e,1) for e in es],uf=[L.MR_UsesEntity(r,f,2) for f in fs]))
        for f in fl[:8]:
            w=s.loop(f); es=s.lst(L.MF_Edges(f,1,None)); k=s.rng.randrange(len(w)); st=s.V[w[k]-1] if w[k] else None
            x=dict(w=w,es=[s.pair(e) for e in es],d=[s.vid.get(L.ME_Vertex(e,0 if L.MF_EdgeDir(f,e) else 1),0) for e in es],
                   di=[s.vid.get(L.ME_Vertex(e,0 if L.MF_EdgeDir_i(f,i) else 1),0) for i,e in enumerate(s.lst(L.MF_Edges(f,1,None)))],
                   st=w[k],fw=s.loop(f,1,st),bw=s.loop(f,0,st),be=[s.pair(e) for e in s.lst(L.MF_Edges(f,0,st))],
                   n=[L.MF_Num_Vertices(f),L.MF_Num_Edges(f),L.MF_ElementType(f)],uv=[y for y in used if L.MF_UsesEntity(f,s.V[y-1],0)],
                   ue=[L.MF_UsesEntity(f,e,1) for e in es],FR=[],s=[0,0])
            if dim==3: x.update(FR=[s.cid(r) for r in s.lst(L.MF_Regions(f))],s=[s.cid(L.MF_Region(f,0)) if L.MF_Region(f,0) else 0,s.cid(L.MF_Region(f,1)) if L.MF_Region(f,1) else 0])
            n=C.c_int(0); ia=(C.c_int*512)(); L.MF_VertexIDs(f,1,0,C.byref(n),ia); x.update(vid=s.vids(ia,n),rid=[])
            if dim==3: L.MF_RegionIDs(f,C.byref(n),ia); x['rid']=s.rids(ia,n)
            if all(w):
                t=w[k:]+w[:k]; t=t[::-1] if s.rng.random()<.5 else t
                g=L.MVs_CommonFace(len(t),ptrs([s.V[y-1] for y in t])); x['cf']=s.loop(g) if g else []
            else: x['cf']=[]
            q['f'].append(x)
        s.identity(q)
        return q
    def vids(s,a,n): return [s.byid.get(a[i],0) for i in range(n.value)]
    def rids(s,a,n):
        k={s.L.MR_ID(p):c+1 for c,p in s.cell.items()}
        return [k.get(a[i],0) for i in range(n.value)]
    def identity(s,q):
        """Edges and faces obtained from different queries, compared with each other and used in other queries."""
        L=s.L; rng=s.rng; PE=[]; PF=[]
        for c in rng.sample(list(s.cell),min(3,len(s.cell))):
            r=s.cell[c]; fs=s.lst(L.MR_Faces(r)) if s.g.dim==3 else [r]
            PE+=s.lst(L.MR_Edges(r)) if s.g.dim==3 else s.lst(L.MF_Edges(r,1,None)); PF+=fs
            for f in rng.sample(fs,min(2,len(fs))): PE+=s.lst(L.MF_Edges(f,rng.randrange(2),None))
            v=s.V[rng.choice(s.loops(c)[0])-1]; PE+=s.lst(L.MV_Edges(v)); PF+=s.lst(L.MV_Faces(v))
            if PE: PF+=s.lst(L.ME_Faces(rng.choice(PE)))
        for _ in range(8):
            if PE:
                a=rng.choice(PE); pa=s.pair(a); near=[e for e in PE if set(s.pair(e))&set(pa)]
                b=rng.choice(near if rng.random()<.7 else PE); q['se'].append([pa,s.pair(b),L.MEs_AreSame(a,b)])
            if PF:
                a=rng.choice(PF); wa=s.loop(a); near=[f for f in PF if set(s.loop(f))&set(wa)]
                b=rng.choice(near if rng.random()<.8 else PF); q['sf'].append([wa,s.loop(b),L.MFs_AreSame(a,b)])
            if PE and PF:
                f=rng.choice(PF); w=s.loop(f); near=[e for e in PE if set(s.pair(e))&set(w)] or PE; e=rng.choice(near); p=s.pair(e)
                u=L.MF_UsesEntity(f,e,1); v=L.ME_Vertex(e,0); q['fe'].append(dict(w=w,p=p,u=u,o=s.vid.get(v,0),d=L.MF_EdgeDir(f,e) if set(p) in [{w[i],w[(i+1)%len(w)]} for i in range(len(w))] else -1))
            if s.g.dim==3:
                c=rng.choice(list(s.cell)); r=s.cell[c]; vs={v for f in s.loops(c) for v in f}
                near=[e for e in PE if set(s.pair(e))&vs] or PE; e=rng.choice(near); q['re'].append(dict(c=c+1,p=s.pair(e),u=L.MR_UsesEntity(r,e,1)))
                near=[f for f in PF if set(s.loop(f))&vs] or PF; f=rng.choice(near); w=s.loop(f)
                q['rf'].append(dict(c=c+1,w=w,u=L.MR_UsesEntity(r,f,2),d=L.MR_FaceDir(r,f) if set(w) in [set(x) for x in s.loops(c)] else -1))
    def rec(s,log,op,c):
        log.put(dict(op=op,c=c,rep=s.rep,dim=s.g.dim,nv=len(s.V),cells=[dict(id=k+1,t=s.loops(k)) for k in sorted(s.cell)],xyz=s.xyz(),cl=s.class_(),q=s.answers()))
def reps(L,log,rng,count):
    while log.n<count:
        g,rep=mesh_for(rng)
        H=Held(L,g,rep,rng); H.rec(log,'build',0)
        out=[]
        for _ in range(rng.choice([0,2,4,6])):
            if rng.random()<.3:
                how,ok=H.other(); 
                if not ok: log.put(dict(op='other',how=how,ok=0)); break
                H.rec(log,how,0); continue
            if H.cell and len(H.cell)>1 and (not out or rng.random()<.6):
                c=rng.choice(list(H.cell)); H.rem(c); out.append(c); H.rec(log,'rem',c+1)
            elif out:
                c=out.pop(rng.randrange(len(out))); H.add(c); H.rec(log,'add',c+1)
PROFILES=dict(reps=reps)
