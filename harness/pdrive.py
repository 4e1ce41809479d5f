"""parallel driver: mpiexec -n N python3 pdrive.py PROFILE SEED COUNT OUT   (one interpreter per MPI process)"""
import sys,os,random,json,pickle,traceback,ctypes as C
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import mstk,drv
from mstk import *
from drv import KINDS,PFX,NAME,PL
import meshes
from xform import Proj,Src,walk,lst,clean,fnum
import xform

class MPI:
    def __init__(self):
        self.m=m=C.CDLL('libmpi.so',mode=C.RTLD_GLOBAL)
        m.MPI_Init(None,None)
        g=lambda n:C.c_void_p(C.addressof(C.c_char.in_dll(m,n)))
        self.comm=g('ompi_mpi_comm_world'); self.BYTE=g('ompi_mpi_byte'); self.INT=g('ompi_mpi_int')
        r=C.c_int(); m.MPI_Comm_rank(self.comm,C.byref(r)); self.rank=r.value
        m.MPI_Comm_size(self.comm,C.byref(r)); self.size=r.value
    def gather(self,o):
        d=pickle.dumps(o); n=C.c_int(len(d)); ns=(C.c_int*self.size)()
        self.m.MPI_Gather(C.byref(n),1,self.INT,ns,1,self.INT,0,self.comm)
        off=(C.c_int*self.size)(); t=0
        for i in range(self.size): off[i]=t; t+=ns[i]
        buf=C.create_string_buffer(max(1,t))
        self.m.MPI_Gatherv(d,n,self.BYTE,buf,ns,off,self.BYTE,0,self.comm)
        if self.rank: return None
        return [pickle.loads(buf.raw[off[i]:off[i]+ns[i]]) for i in range(self.size)]
    def bcast(self,o=None):
        d=pickle.dumps(o) if self.rank==0 else b''
        n=C.c_int(len(d)); self.m.MPI_Bcast(C.byref(n),1,self.INT,0,self.comm)
        buf=C.create_string_buffer(d,n.value) if self.rank==0 else C.create_string_buffer(n.value)
        self.m.MPI_Bcast(buf,n,self.BYTE,0,self.comm)
        return pickle.loads(buf.raw[:n.value])
    def barrier(self): self.m.MPI_Barrier(self.comm)

def numat(name): return name.startswith('num')
class PSnap:
    """snapshot of one process's mesh; w = position in the global mesh per entity (by coordinates and connectivity, or by identity)"""
    turn=0
    def __init__(self,L,m,G=None,look=0,old=None,w=None):
        P=Proj(L,m); s=P.s; self.P=P; self.G=G
        d=dict(V=s['V'],E=s['E'],F=s['F'],R=s['R'],n=s['n'],at=s['at'],st=s['st'])
        for a in d['at']:
            if numat(a['n']): a['i']=[[k,u,[int(float(x)) if float(x)==int(float(x)) else 999999 for x in v]] for k,u,v in a['v']]
        d['c']=[s['C'+k] for k in KINDS]
        q=lambda f:[[getattr(L,PFX[k]+f)(p) for p in P.ent[k]] for k in range(4)]
        d['g']=q('_GlobalID'); d['t']=q('_PType'); d['o']=q('_MasterParID')
        d['gl']=[];d['ol']=[]
        for k in range(4):
            for key,nm in (('gl','Ghost'),('ol','Overlap')):
                PSnap.turn+=1
                if PSnap.turn%2:
                    f=getattr(L,'MESH_%s%s'%(nm,NAME[k])); n=getattr(L,'MESH_Num_%s%s'%(nm,PL[k]))(m)
                    d[key].append([P.ix[k].get(f(m,i),0) for i in range(n)])
                else:
                    f=getattr(L,'MESH_Next_%s%s'%(nm,NAME[k])); i=C.c_int(0); o=[]
                    while True:
                        e=f(m,C.byref(i))
                        if not e: break
                        o.append(P.ix[k].get(e,0))
                    d[key].append(o)
        if old is not None: w=[[old.byptr[k].get(p,0) for p in P.ent[k]] for k in range(4)]
        elif w is None and G is not None: w=self.witness(d,G)
        d['w']=w if w is not None else [[0]*len(e) for e in P.ent]
        self.byptr=[dict(zip(P.ent[k],d['w'][k])) for k in range(4)]
        if look:
            if look==2: L.MESH_Enable_GlobalIDSearch(m)
            d['look']=[]
            for k in range(4):
                f=getattr(L,'MESH_%sFromGlobalID'%NAME[k])
                d['look'].append([[i,P.ix[k].get(f(m,i),0)] for i in sorted(set(d['g'][k])|set(range(1,max(d['g'][k]+[0])+3)))])
            if look==2: L.MESH_Disable_GlobalIDSearch(m)
        self.s=d
    def witness(self,d,G):
        ix={}
        for i,v in enumerate(G['V']): ix.setdefault(tuple(v),i+1)
        wv=[ix.get(tuple(v),0) for v in d['V']]; z=[0]+wv
        ie={}
        for i,e in enumerate(G['E']): ie.setdefault(frozenset(e),i+1)
        we=[ie.get(frozenset(z[v] for v in e),0) for e in d['E']]; z=[0]+we
        jf={}
        for i,f in enumerate(G['F']): jf.setdefault(frozenset(e for e,_ in f),i+1)
        wf=[jf.get(frozenset(z[e] for e,_ in f),0) for f in d['F']]; z=[0]+wf
        ir={}
        for i,r in enumerate(G['R']): ir.setdefault(frozenset(f for f,_ in r),i+1)
        wr=[ir.get(frozenset(z[f] for f,_ in r),0) for r in d['R']]
        return [wv,we,wf,wr]

class Ctx:
    def __init__(self,L,mpi,log,seed,prof):
        self.L,self.mpi,self.log=L,mpi,log
        self.rng=random.Random('%s-%d'%(prof,seed))            # same decisions on every process
        self.loc=random.Random('%s-%d-%d'%(prof,seed,mpi.rank)) # per-process values
    def put(self,op,a,snap,r=0,A=None):
        rec=self.mpi.gather((snap.s if snap else {},r))
        if self.mpi.rank==0:
            d=dict(op=op,a=a,r=[x[1] for x in rec],P=[x[0] for x in rec]); d['A']=A if A is not None else {}
            self.log.put(d)
        n=self.mpi.bcast(self.log.n if self.mpi.rank==0 else None); self.n=n

def elems(A): return A['R'] if A['R'] else A['F']
def adjacency(A):
    """vertex sets of the elements"""
    out=[]
    for x in elems(A):
        fs=[f for f,_ in x] if A['R'] else None
        es=set(e for f in fs for e,_ in A['F'][f-1]) if fs else set(e for e,_ in x)
        out.append(set(v for e in es for v in A['E'][e-1]))
    return out
def partition(rng,A,n):
    """a partition vector of some shape"""
    m=len(elems(A)); vs=adjacency(A); how=rng.random()
    if how<.15: p=[rng.randrange(n) for _ in range(m)]
    elif how<.25: p=[i*n//m for i in range(m)]
    elif how<.3: p=[rng.randrange(n)]*m
    elif how<.4:
        q=rng.randrange(n); p=[q]*m
        for i in rng.sample(range(m),min(m,rng.randint(1,3))): p[i]=rng.randrange(n)
    elif how<.45:
        use=rng.sample(range(n),max(1,n-1)); p=[rng.choice(use) for _ in range(m)]
    elif how<.6: # single elements off one part, chosen to touch others of it at single vertices
        q=rng.randrange(n); p=[q]*m
        v=rng.choice(sorted({v for x in vs for v in x})); at=[i for i in range(m) if v in vs[i]] 
        for i in rng.sample(at,min(len(at)-1,rng.randint(1,2))) if len(at)>1 else []: p[i]=rng.randrange(n)
    else:  # grown regions
        p=[-1]*m; parts=list(range(n)); rng.shuffle(parts)
        if rng.random()<.2: parts=parts[:max(1,n-1)]
        for q in parts:
            free=[i for i in range(m) if p[i]<0]
            if free: p[rng.choice(free)]=q
        while -1 in p:
            i=rng.choice([i for i in range(m) if p[i]<0])
            nb=[p[j] for j in range(m) if p[j]>=0 and vs[j]&vs[i]]
            if nb: p[i]=rng.choice(nb)
            elif rng.random()<.05: p[i]=rng.choice(parts)
    return p
def nonempty(rng,A,n):
    while True:
        p=partition(rng,A,n)
        if len(set(p))==n: return p
        for q in range(n):          # give missing parts an element of a part that can spare one
            if q not in p:
                c=[i for i in range(len(p)) if p.count(p[i])>1]
                if not c: return None
                p[rng.choice(c)]=q
        return p
def globalmesh(S):
    P=S.proj(); s=P.s
    A=dict(V=s['V'],E=s['E'],F=s['F'],R=s['R'],n=s['n'],at=s['at'],st=s['st'],c=[s['C'+k] for k in KINDS],g=[[getattr(S.L,PFX[k]+'_GlobalID')(p) for p in P.ent[k]] for k in range(4)])
    return A
def source(cx,rng,lattice=False,g=None,atts=True,manifold=False,edit=.3):
    """on the root: a mesh whose every entity belongs to an element"""
    L=cx.L
    while True:
        X=Src(L,rng,g=g,rep=F1,edit=edit,jiggle=not lattice,atts=False,sets=False)
        clean(X)
        dim=X.g.dim
        A=globalmesh(X)
        if len(elems(A))>0 and len({tuple(v) for v in A['V']})==len(A['V']) and len(elems(A))<=45: break
        L.MESH_Delete(X.mesh)
    if atts: X.attrs(types=(INT,DOUBLE,VECTOR,TENSOR)); X.msets()
    return X
def parmesh(rng):
    r=rng.random()
    if r<.15: return meshes.quads(rng.randint(2,6),rng.randint(2,5))
    if r<.25: return meshes.tris(rng.randint(2,4),rng.randint(2,4),rng)
    if r<.3: return meshes.mixed2(rng.randint(3,4),rng.randint(2,4),rng)
    if r<.38: return meshes.hexes(rng.randint(2,3),rng.randint(1,3),rng.randint(1,2))
    if r<.45: return meshes.hexes(rng.randint(2,3),2,2)
    if r<.5: return meshes.tets(rng.randint(1,2),1,1)
    if r<.55: return meshes.prisms(2,rng.randint(1,2),1)
    if r<.6: return meshes.extrude(meshes.mixed2(2,2,rng),2)
    return None
def main():
    prof,seed,count,out=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),sys.argv[4]
    mpi=MPI()
    import parprof
    L=mstk.load(); L.MSTK_Init()
    log=drv.Log(out) if mpi.rank==0 else None
    cx=Ctx(L,mpi,log,seed,prof); cx.n=0
    try: parprof.PROFILES[prof](cx,count)
    except BaseException as ex:
        traceback.print_exc(); sys.stderr.flush(); sys.stdout.flush()
        os._exit(4 if isinstance(ex,(OSError,MemoryError)) else 3)
    if log: log.f.flush() if hasattr(log,'f') else 0
    mpi.barrier()
    mpi.m.MPI_Finalize()
    sys.stdout.flush(); sys.stderr.flush(); os._exit(0)
if __name__=='__main__': main()
