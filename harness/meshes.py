"""Families of meshes as plain data: Geo(pts, cells) with cells given as
   2D: vertex loop               3D: list of outward-pointing vertex loops (one per face)
All coordinates are small integers.  Orientation in 2D is coherent for orientable families."""
import random

class Geo:
    def __init__(self,dim,pts,cells,name,std=None):
        self.dim=dim; self.pts=[tuple(p) for p in pts]; self.cells=cells; self.name=name
        self.std=std            # 3D: vertex list in documented order per cell (or None)
        self.box=None
    def used(self):
        s=set()
        for c in self.cells:
            if self.dim==2: s|=set(c)
            else:
                for f in c: s|=set(f)
        return s

# documented vertex orderings -> outward faces
STDF={4:[(0,2,1),(0,1,3),(1,2,3),(0,3,2)],
      5:[(0,3,2,1),(0,1,4),(1,2,4),(2,3,4),(3,0,4)],
      6:[(0,2,1),(3,4,5),(0,1,4,3),(1,2,5,4),(2,0,3,5)],
      8:[(0,3,2,1),(4,5,6,7),(0,1,5,4),(1,2,6,5),(2,3,7,6),(3,0,4,7)]}
def std_faces(vs): return [tuple(vs[i] for i in f) for f in STDF[len(vs)]]
def from_std(pts,els,name):
    return Geo(3,pts,[std_faces(e) for e in els],name,[list(e) for e in els])

def grid2(m,n,sx=1,sy=1):
    idx=lambda i,j:j*(m+1)+i
    pts=[(i*sx,j*sy,0) for j in range(n+1) for i in range(m+1)]
    return pts,idx
def quads(m,n):
    pts,ix=grid2(m,n)
    g=Geo(2,pts,[[ix(i,j),ix(i+1,j),ix(i+1,j+1),ix(i,j+1)] for j in range(n) for i in range(m)],'quads%dx%d'%(m,n))
    g.box=(m,n,0); return g
def tris(m,n,rng=None):
    pts,ix=grid2(m,n); cs=[]
    for j in range(n):
        for i in range(m):
            a,b,c,d=ix(i,j),ix(i+1,j),ix(i+1,j+1),ix(i,j+1)
            if rng and rng.random()<.5: cs+=[[a,b,d],[b,c,d]]
            else: cs+=[[a,b,c],[a,c,d]]
    g=Geo(2,pts,cs,'tris%dx%d'%(m,n)); g.box=(m,n,0); return g
def mixed2(m,n,rng):
    pts,ix=grid2(m,n); cs=[]
    for j in range(n):
        for i in range(m):
            a,b,c,d=ix(i,j),ix(i+1,j),ix(i+1,j+1),ix(i,j+1)
            r=rng.random()
            if r<.3: cs+=[[a,b,d],[b,c,d]]
            elif r<.6: cs+=[[a,b,c],[a,c,d]]
            else: cs.append([a,b,c,d])
    g=Geo(2,pts,cs,'mixed%dx%d'%(m,n)); g.box=(m,n,0); return g
def ngon(n):
    # convex polygon with integer coordinates on a parabola
    pts=[(i,i*i,0) for i in range(n)]
    return Geo(2,pts,[list(range(n))],'ngon%d'%n)
def fan2(n,closed):
    """n triangles around vertex 0"""
    k=n if closed else n+1
    pts=[(0,0,0)]+[((i%7)+1+i,(i*i)%11-5,i) for i in range(k)]
    return Geo(2,pts,[[0,1+i,1+(i+1)%k] for i in range(n)],'fan%d%s'%(n,'c' if closed else ''))
def polys(rng):
    """polygons: agglomerate random runs of quads in each row"""
    m,n=rng.randint(3,5),rng.randint(1,3)
    pts,ix=grid2(m,n); cs=[]
    for j in range(n):
        i=0
        while i<m:
            w=min(rng.choice([1,1,2,3]),m-i)
            cs.append([ix(i+t,j) for t in range(w+1)]+[ix(i+w-t,j+1) for t in range(w+1)])
            i+=w
    g=Geo(2,pts,cs,'polys'); g.box=(m,n,0); return g
def ring2(m,n):
    """annulus: periodic in i"""
    pts=[((i*3)%(2*m)+j,(i*i)%7+2*j+i,j) for j in range(n+1) for i in range(m)]
    ix=lambda i,j:j*m+i%m
    return Geo(2,pts,[[ix(i,j),ix(i+1,j),ix(i+1,j+1),ix(i,j+1)] for j in range(n) for i in range(m)],'ring%dx%d'%(m,n))
def torus2(m,n):
    pts=[(i,j,(i*j)%5) for j in range(n) for i in range(m)]
    ix=lambda i,j:(j%n)*m+i%m
    return Geo(2,pts,[[ix(i,j),ix(i+1,j),ix(i+1,j+1),ix(i,j+1)] for j in range(n) for i in range(m)],'torus%dx%d'%(m,n))
def surf_of(vs,pts,name):
    return Geo(2,pts,[list(f) for f in std_faces(vs)],name)

def grid3(l,m,n):
    ix=lambda i,j,k:(k*(m+1)+j)*(l+1)+i
    pts=[(i,j,k) for k in range(n+1) for j in range(m+1) for i in range(l+1)]
    return pts,ix
def hexv(ix,i,j,k):
    return [ix(i,j,k),ix(i+1,j,k),ix(i+1,j+1,k),ix(i,j+1,k),ix(i,j,k+1),ix(i+1,j,k+1),ix(i+1,j+1,k+1),ix(i,j+1,k+1)]
def hexes(l,m,n):
    pts,ix=grid3(l,m,n)
    g=from_std(pts,[hexv(ix,i,j,k) for k in range(n) for j in range(m) for i in range(l)],'hex%dx%dx%d'%(l,m,n))
    g.box=(l,m,n); return g
KUHN=[(0,1,2,6),(0,2,3,6),(0,3,7,6),(0,7,4,6),(0,4,5,6),(0,5,1,6)]
def tets(l,m,n):
    pts,ix=grid3(l,m,n); els=[]
    for k in range(n):
        for j in range(m):
            for i in range(l):
                h=hexv(ix,i,j,k)
                els+=[[h[a] for a in t] for t in KUHN]
    g=from_std(pts,els,'tet%dx%dx%d'%(l,m,n)); g.box=(l,m,n); return g
def tets5():
    pts,ix=grid3(1,1,1); h=hexv(ix,0,0,0)
    g=from_std(pts,[[h[a] for a in t] for t in [(0,1,2,5),(0,2,3,7),(0,5,7,4),(2,7,5,6),(0,2,7,5)]],'tets5'); g.box=(1,1,1); return g
def prisms(l,m,n,rng=None):
    pts,ix=grid3(l,m,n); els=[]
    for k in range(n):
        for j in range(m):
            for i in range(l):
                h=hexv(ix,i,j,k)
                els+=[[h[0],h[1],h[2],h[4],h[5],h[6]],[h[0],h[2],h[3],h[4],h[6],h[7]]]
    g=from_std(pts,els,'prism%dx%dx%d'%(l,m,n)); g.box=(l,m,n); return g
def tetring(n):
    """n tetrahedra around the edge 0-1"""
    at=[(3,0,1),(0,3,1),(-3,0,1),(0,-3,1)] if n==4 else [(3,0,1),(-2,3,1),(-2,-3,1)]
    return from_std([(0,0,0),(0,0,2)]+at,[[0,2+i,2+(i+1)%n,1] for i in range(n)],'tetring%d'%n)
def pyramids():
    pts,ix=grid3(1,1,1); pts=[tuple(2*x for x in p) for p in pts]+[(1,1,1)]; h=hexv(ix,0,0,0)
    # pyramid base must be seen from inside as 0,1,2,3 counter-clockwise (base outward = reversed)
    els=[[h[a] for a in reversed(f)]+[8] for f in STDF[8]]
    return from_std(pts,els,'pyramids')
def mixed3():
    """hex + prisms + pyramid + tets, conforming"""
    pts,ix=grid3(1,1,1); pts=[tuple(2*x for x in p) for p in pts]
    h=hexv(ix,0,0,0)
    pts+= [(1,1,4)]               # 8 apex over top
    pts+= [(4,1,0),(4,1,2)]       # 9,10 prism on x+ side
    els=[h,[h[4],h[5],h[6],h[7],8],[h[1],9,h[2],h[5],10,h[6]],[h[5],10,h[6],8]]
    return from_std(pts,els,'mixed3')
def tetfan(n,closed):
    """n tets around the edge 0-1"""
    k=n if closed else n+1
    C=[(5,0),(4,3),(3,4),(0,5),(-3,4),(-4,3),(-5,0),(-4,-3),(-3,-4),(0,-5),(3,-4),(4,-3)]
    pts=[(0,0,-3),(0,0,3)]+[(C[i%12][0]*(1+i//12),C[i%12][1]*(1+i//12),0) for i in range(k)]
    els=[[0,2+i,2+(i+1)%k,1] for i in range(n)]
    return from_std(pts,els,'tetfan%d%s'%(n,'c' if closed else ''))
def tets2face():
    pts=[(0,0,0),(2,0,0),(0,2,0),(0,0,2),(0,0,-2)]
    return from_std(pts,[[0,1,2,3],[0,2,1,4]],'tets2')
def tetvertex():
    pts=[(0,0,0),(2,0,0),(0,2,0),(0,0,2),(-2,0,0),(0,-2,0),(0,0,-2)]
    return from_std(pts,[[0,1,2,3],[0,4,5,6]],'tetvertex')
def tetedge():
    pts=[(0,0,0),(0,0,2),(2,0,0),(2,2,0),(-2,0,0),(-2,-2,0)]
    return from_std(pts,[[0,2,3,1],[0,4,5,1]],'tetedge')
def extrude(g2,layers=1):
    """prismatic polyhedra over a 2D mesh"""
    n=len(g2.pts); pts=[]
    for k in range(layers+1): pts+=[(x,y,z+3*k) for x,y,z in g2.pts]
    cells=[];std=[]
    for k in range(layers):
        for c in g2.cells:
            b=[v+k*n for v in c]; t=[v+(k+1)*n for v in c]; m=len(c)
            fs=[tuple(reversed(b)),tuple(t)]+[(b[i],b[(i+1)%m],t[(i+1)%m],t[i]) for i in range(m)]
            cells.append(fs)
            std.append(b+t if m in(3,4) else None)
    g=Geo(3,pts,cells,'ext('+g2.name+')',std)
    if g2.box: g.box=(g2.box[0],g2.box[1],3*layers)
    return g
def agglom(g,groups):
    """merge cells of each group into one polyhedron (faces interior to the group vanish)"""
    cells=[];
    for gr in groups:
        cnt={}
        for c in gr:
            for f in g.cells[c]: cnt.setdefault(frozenset(f),[]).append(f)
        cells.append([fs[0] for fs in cnt.values() if len(fs)==1])
    o=Geo(3,g.pts,cells,'agg('+g.name+')',[None]*len(cells)); o.box=g.box; return o
def bigpoly(k=3):
    """one polyhedron with 6k^2 faces, glued to a hex"""
    g=hexes(k,k,k+1); n=len(g.cells); body=list(range(k*k*k)); rest=[[c] for c in range(k*k*k,n)]
    o=agglom(g,[body]+rest); o.name='bigpoly%d'%k
    o.std=[None]+[g.std[c[0]] for c in rest]
    return o
def subset(g,rng,p):
    keep=[i for i in range(len(g.cells)) if rng.random()<p] or [0]
    o=Geo(g.dim,g.pts,[g.cells[i] for i in keep],'sub('+g.name+')',[g.std[i] for i in keep] if g.std else None); o.box=g.box
    u=sorted(o.used()); mp={v:i for i,v in enumerate(u)}
    o.pts=[g.pts[v] for v in u]
    if g.dim==2: o.cells=[[mp[v] for v in c] for c in o.cells]
    else:
        o.cells=[[tuple(mp[v] for v in f) for f in c] for c in o.cells]
        o.std=[[mp[v] for v in s] if s else None for s in o.std] if o.std else None
    return o
def shuffle(g,rng):
    """random vertex numbering and cell order; 2D: random cyclic start"""
    p=list(range(len(g.pts))); rng.shuffle(p)
    pts=[None]*len(p)
    for i,q in enumerate(p): pts[q]=g.pts[i]
    order=list(range(len(g.cells))); rng.shuffle(order)
    if g.dim==2:
        cells=[]
        for i in order:
            c=[p[v] for v in g.cells[i]]; k=rng.randrange(len(c)); cells.append(c[k:]+c[:k])
        std=None
    else:
        cells=[]
        for i in order:
            fs=[]
            for f in g.cells[i]:
                f=[p[v] for v in f]; k=rng.randrange(len(f)); fs.append(tuple(f[k:]+f[:k]))
            rng.shuffle(fs); cells.append(fs)
        std=[[p[v] for v in g.std[i]] if g.std[i] else None for i in order] if g.std else None
    o=Geo(g.dim,pts,cells,g.name,std); o.box=g.box; return o

def rand2(rng,small=False):
    r=rng.random()
    if r<.22: g=tris(rng.randint(1,3),rng.randint(1,3),rng)
    elif r<.38: g=quads(rng.randint(1,4),rng.randint(1,3))
    elif r<.55: g=mixed2(rng.randint(1,3),rng.randint(1,3),rng)
    elif r<.65: g=polys(rng)
    elif r<.72: g=fan2(rng.randint(3,9),True)
    elif r<.78: g=fan2(rng.randint(1,6),False)
    elif r<.83: g=ring2(rng.randint(3,6),rng.randint(1,2))
    elif r<.88: g=torus2(rng.randint(3,4),rng.randint(3,4))
    elif r<.92: g=surf_of(list(range(8)),[(0,0,0),(1,0,0),(1,1,0),(0,1,0),(0,0,1),(1,0,1),(1,1,1),(0,1,1)],'cubesurf')
    elif r<.95: g=surf_of(list(range(4)),[(0,0,0),(1,0,0),(0,1,0),(0,0,1)],'tetsurf')
    else: g=ngon(rng.choice([3,5,8,12]))
    if rng.random()<.3 and len(g.cells)>2: g=subset(g,rng,.7)
    return g
def rand3(rng,simplex=False,big=False):
    r=rng.random()
    if simplex:
        g=rng.choice([lambda:tets(1,1,1),lambda:tets(2,1,1),tets5,lambda:tetfan(rng.randint(3,6),True),lambda:tetfan(rng.randint(1,5),False),
                      tets2face,tetvertex,tetedge,lambda:tets(1,1,2)])()
    else:
        g=rng.choice([lambda:hexes(rng.randint(1,2),rng.randint(1,2),1),lambda:prisms(rng.randint(1,2),1,1),pyramids,mixed3,
                      lambda:tets(1,1,1),lambda:tetfan(rng.randint(3,5),True),lambda:extrude(polys(rng)),lambda:extrude(mixed2(2,2,rng)),
                      lambda:extrude(tris(2,1,rng)),lambda:agglom(hexes(3,1,1),[[0,1],[2]]),lambda:agglom(hexes(2,2,1),[[0,1,2],[3]]),
                      lambda:extrude(ngon(rng.choice([5,6,7]))),lambda:tets(2,1,1)])()
    if rng.random()<.3 and len(g.cells)>2: g=subset(g,rng,.75)
    return g
