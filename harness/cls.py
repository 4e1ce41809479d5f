"""classification inference and the topology checker"""
import ctypes as C
from drv import *
from mstk import *
import meshes, os
from xform import Src, Proj, walk, lst

class P(Proj):
    def __init__(self,L,m,integer): super().__init__(L,m,scale=1 if integer else 1024,full=True)
def strip(X,dims=(0,1,2,3)):
    L=X.L
    for k in dims:
        for p in walk(L,X.mesh,k):
            getattr(L,PFX[k]+'_Set_GEntDim')(p,4); getattr(L,PFX[k]+'_Set_GEntID')(p,0)
def put(log,op,a,r,A): log.put(dict(op=op,a=a,r=r,A=A.s))

def bent(rng):
    """surface strips and rings with sharp and gentle bends; lattice coordinates"""
    steps=[(2,0),(0,2),(2,1),(2,-1),(-2,0),(1,2),(3,0),(4,1),(4,-1),(0,-2)]
    n=rng.randint(2,6); x=z=0; path=[(0,0)]
    for i in range(n):
        for _ in range(20):
            dx,dz=rng.choice(steps)
            if (x+dx,z+dz) not in path: break
        else: break
        x+=dx; z+=dz; path.append((x,z))
    m=rng.randint(1,2); w=m+1; n=len(path)
    pts=[(a,2*j,b) for a,b in path for j in range(w)]
    cells=[]
    for i in range(n-1):
        for j in range(m):
            q=[i*w+j,(i+1)*w+j,(i+1)*w+j+1,i*w+j+1]
            if rng.random()<.3: cells+=[q[:3],[q[0],q[2],q[3]]]
            else: cells.append(q)
    return meshes.Geo(2,pts,cells,'bent')
def wedge(n):
    """surface sheets meeting in one line"""
    pts=[(0,0,0),(0,2,0)]; cells=[]
    for d in [(2,0),(0,2),(-2,0),(0,-2),(2,2)][:n]:
        k=len(pts); pts+=[(d[0],0,d[1]),(d[0],2,d[1])]; cells.append([0,1,k+1,k])
    return meshes.Geo(2,pts,cells,'wedge')
def stretch(g,rng):
    """shear a lattice mesh so that its faces meet at many angles (coordinates stay small integers)"""
    s=rng.choice([0,0,0,1,2]); t=rng.choice([1,1,2,3])
    g.pts=[(t*x+(s*z if s else 0),y*rng.choice([1]) ,z) for x,y,z in g.pts]; g.box=None
    return g
def intgrid(g): return all(float(c).is_integer() for p in g.pts for c in p)

def source(L,rng,geom,solid=None):
    r=rng.random()
    if r<.12: g=bent(rng)
    elif r<.17: g=wedge(rng.randint(2,5))
    elif r<.55 if solid is None else not solid: g=meshes.rand2(rng)
    else: g=meshes.rand3(rng,rng.random()<.4)
    if geom:
        if not intgrid(g): return None
        if rng.random()<.4: g=stretch(g,rng)
    X=Src(L,rng,g=g,edit=0 if geom else .35,jiggle=False,cls=rng.choice(['none','none','none','tops','model','box']),
          atts=rng.random()<.15,sets=rng.random()<.15,way=rng.choice(['edges','edges','verts']),
          weights=dict(split=3,fsplit=2,fsplite=2,joinf=1,joinr=1,swap=1,**{'del':2}),maxv=30)
    return X
def classfn(L,log,rng,count):
    while log.n<count:
        geom=rng.random()<.4
        X=source(L,rng,geom)
        if not X: continue
        if sum(len(walk(L,X.mesh,k)) for k in range(4))>230: L.MESH_Delete(X.mesh); continue
        R=walk(L,X.mesh,3); F=walk(L,X.mesh,2)
        fc=[(L.MF_GEntDim(f),L.MF_GEntID(f)) for f in F]
        strip(X)
        if R:
            mode=rng.choice(['none','one','some','all','all','all'])
            n=rng.randint(1,4)
            for p in R:
                if mode=='one': L.MR_Set_GEntDim(p,3); L.MR_Set_GEntID(p,5)
                elif mode=='all' or mode=='some' and rng.random()<.6:
                    if rng.random()<.9: L.MR_Set_GEntDim(p,3)
                    L.MR_Set_GEntID(p,rng.choice([1,2,3,7,12][:n]))
        give=rng.choice(['none','none','all','some','bad'] if not geom else ['none','none','all'])
        if give!='none':
            n=rng.randint(1,3)
            for p in F:
                l=lst(L,L.MF_Regions(p)); ids={L.MR_GEntID(q) for q in l}
                if len(l)==2 and len(ids)==1 and give!='bad': continue
                if give in('some','bad') and rng.random()<.5: continue
                L.MF_Set_GEntDim(p,2); L.MF_Set_GEntID(p,rng.choice([1,4,11][:n]) if rng.random()<.95 or geom else 0)
        for k in (1,0):
            if rng.random()<.1:
                for p in walk(L,X.mesh,k):
                    if rng.random()<.3: getattr(L,PFX[k]+'_Set_GEntDim')(p,rng.choice([3,2,3])); getattr(L,PFX[k]+'_Set_GEntID')(p,rng.randint(1,9))
        put(log,'init',{},0,P(L,X.mesh,geom))
        for _ in range(1 if rng.random()<.85 or geom else 2):
            ok=L.MESH_BuildClassfn(X.mesh,1 if geom else 0)
            put(log,'build',dict(geom=int(geom)),ok,P(L,X.mesh,geom))
        L.MESH_Delete(X.mesh)

def topo(L,log,rng,count):
    while log.n<count:
        how=rng.choice(['model','box','build','build'])
        g=meshes.rand2(rng) if rng.random()<.35 else meshes.rand3(rng,rng.random()<.4)
        if how=='box' and not g.box: how='build'
        X=Src(L,rng,g=g,edit=.3,jiggle=False,cls=how if how!='build' else 'none',atts=False,sets=False,weights=dict(split=3,fsplit=2,fsplite=2,joinf=1,joinr=1,swap=1),maxv=25)
        if sum(len(walk(L,X.mesh,k)) for k in range(4))>200: L.MESH_Delete(X.mesh); continue
        if how=='build':
            for p in walk(L,X.mesh,3): L.MR_Set_GEntID(p,rng.choice([1,1,2]))
            L.MESH_BuildClassfn(X.mesh,0)
        def check():
            put(log,'init',{},0,P(L,X.mesh,False)); ok=L.MESH_CheckTopo(X.mesh)
            put(log,'check',{},ok,P(L,X.mesh,False))
        check()
        E=[walk(L,X.mesh,k) for k in range(4)]
        for _ in range(rng.randint(1,4)):
            undo=None; m=rng.random()
            if m<.3 and E[3]:
                r_=rng.choice(E[3]); n=len(lst(L,L.MR_Faces(r_))); i=rng.randrange(n)
                d=L.MR_FaceDir_i(r_,i)
                if rng.random()<.5:
                    L.MR_Rev_FaceDir_i(r_,i); undo=lambda:L.MR_Rev_FaceDir_i(r_,i)
                else:
                    f=lst(L,L.MR_Faces(r_))[i]
                    if L.MF_Region(f,d): continue
                    L.MR_Set_FaceDir_i(r_,i,1-d); undo=lambda:L.MR_Set_FaceDir_i(r_,i,d)
            else:
                k=rng.choice([0,1,1,2,2,3])
                if not E[k]: continue
                p=rng.choice(E[k]); D=getattr(L,PFX[k]+'_GEntDim')(p); I=getattr(L,PFX[k]+'_GEntID')(p)
                sd=getattr(L,PFX[k]+'_Set_GEntDim'); si=getattr(L,PFX[k]+'_Set_GEntID')
                if rng.random()<.65: sd(p,rng.choice([x for x in range(k,4)]+([4] if rng.random()<.3 else [])))
                else: si(p,I+rng.choice([1,20]))
                undo=lambda:(sd(p,D),si(p,I))
            check()
            if rng.random()<.75: undo()
        L.MESH_Delete(X.mesh)
PROFILES=dict(classfn=classfn,topo=topo)
