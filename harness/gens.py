"""Random operation generators over real meshes.  Choices are made from the projected state of the mesh (public
queries); nothing here judges results - that is done by TLC against the specification."""
import random, ctypes as C
from drv import *
import meshes
from mstk import *

# ------------------------------------------------------------------ building
def classify_box(g,vids):
    """documented box-model classification of an entity with the given vertices"""
    ext=[]
    for d in range(3):
        if g.box[d]==0: continue
        for side,val in ((0,0),(1,g.box[d])):
            if all(g.pts[v][d]==val for v in vids): ext.append(2*d+side+1)
    D=sum(1 for b in g.box if b)
    code=0
    for e in ext: code=code*7+e
    return [D-len(ext),code+1]

REPS=tuple(int(x) for x in __import__("os").environ.get("REP","0,0,1").split(","))   # representations driven

class Builder:
    """builds a Geo in a Session.  way: 'edges' explicit bottom-up, 'verts' from vertex lists"""
    def __init__(self,S,g,rng,way='edges',cls='flat',emit=None,randdir=True):
        self.S=S;self.g=g;self.rng=rng;self.way=way;self.clsmode=cls;self.randdir=randdir
        self.em=emit
    def c(self,k,vids):
        m=self.clsmode
        if m=='none': return None
        if m=='box' and self.g.box: return classify_box(self.g,vids)
        if m=='model': return self.model(k,frozenset(vids))
        if m=='ends': return [self.rng.randint(0,self.g.dim),self.rng.randint(1,2)] if k==0 else [k,1]     # vertices on anything
        if m=='tops': return [self.g.dim,1+(min(vids)%2)] if k==self.g.dim else None
        return [k,1]
    def model(self,k,vs):
        """random but consistent classification: cells get one of two materials, lower entities follow"""
        if not hasattr(self,'mm'):
            g=self.g; r=self.rng
            mat=[r.randint(1,2) for _ in g.cells]
            base=r.choice([0,0,40])
            m={}
            side={}     # codim-1 -> list of cells
            cellsides=[]
            for i,c in enumerate(g.cells):
                ss=[frozenset(f) for f in c] if g.dim==3 else [frozenset((c[j],c[(j+1)%len(c)])) for j in range(len(c))]
                for s_ in ss: side.setdefault(s_,[]).append(i)
            cell={}
            for i,c in enumerate(g.cells):
                cell[frozenset(x for f in c for x in f) if g.dim==3 else frozenset(c)]=[g.dim,mat[i]+base]
            sc={}
            for s_,cs in side.items():
                ms=sorted(set(mat[i] for i in cs))
                sc[s_]=[g.dim,ms[0]+base] if len(cs)>1 and len(ms)==1 else [g.dim-1,base+(1 if len(cs)==1 else 2)+(2*r.randint(0,1) if r.random()<.3 else 0)]
            def lower(items,dim):
                out={}
                for s_,c in items:
                    out.setdefault(s_,[]).append(c)
                res={}
                for s_,cs in out.items():
                    b=[c for c in cs if c[0]<g.dim]
                    if not b: res[s_]=cs[0]
                    elif all(c==b[0] for c in b) : res[s_]=b[0]
                    else: res[s_]=[dim,base+1+len(b)%3]
                return res
            if g.dim==3:
                ed=[]
                seen=set()
                for c in g.cells:
                    for f in c:
                        for j in range(len(f)):
                            ed.append((frozenset((f[j],f[(j+1)%len(f)])),sc[frozenset(f)]))
                ec=lower(ed,1)
            else: ec=sc
            vc={}
            tmp={}
            for e_,c in ec.items():
                for v in e_: tmp.setdefault(v,[]).append(c)
            for v,cs in tmp.items():
                mn=min(c[0] for c in cs)
                low=[c for c in cs if c[0]==mn]
                vc[v]=low[0] if all(c==low[0] for c in low) and not (mn==1 and len(low)!=2) else [0,base+1+v]
            self.mm=(cell,sc,ec,vc)
        cell,sc,ec,vc=self.mm
        if k==0: return vc.get(next(iter(vs)),[0,1])
        if k==1: return ec[vs]
        if k==2: return sc[vs] if self.g.dim==3 else cell[vs]
        return cell.get(vs) or [3,1]
    def build(self,parts=None):
        S,g,rng,L=self.S,self.g,self.rng,self.S.L
        r=rng
        self.v=[]
        for i,p in enumerate(g.pts):
            self.v.append(S.mkv(p,self.c(0,[i])))
            if self.em: self.em('newv',{'xyz':[int(x*S.scale) for x in p],'c':self.c0(0,self.v[-1])},0)
        self.e={}; self.f={}; self.rg=[]
        facelist=[]
        for c in g.cells:
            if g.dim==2: facelist.append(list(c))
            else: facelist+= [list(f) for f in c]
        seen=set(); fl=[]
        for f in facelist:
            if g.dim==2: fl.append(f)
            elif frozenset(f) not in seen: seen.add(frozenset(f)); fl.append(f)
        if self.way=='edges':
            ed=[]
            for f in fl:
                for i in range(len(f)):
                    k=frozenset((f[i],f[(i+1)%len(f)]))
                    if k not in self.e: self.e[k]=None; ed.append((f[i],f[(i+1)%len(f)]))
            if self.randdir: r.shuffle(ed)
            for a,b in ed:
                if self.randdir and r.random()<.5: a,b=b,a
                p=S.mke(self.v[a],self.v[b],self.c(1,[a,b])); self.e[frozenset((a,b))]=(p,a)
                if self.em: self.em('newe',{'v':[S.uid(0,self.v[a]),S.uid(0,self.v[b])],'c':self.c0(1,p)},0)
        for f in fl:
            f=list(f)
            if g.dim==3 and self.randdir and r.random()<.5: f=f[::-1]
            if self.randdir: k=r.randrange(len(f)); f=f[k:]+f[:k]
            if self.way=='edges':
                es=[];ds=[]
                for i in range(len(f)):
                    p,a=self.e[frozenset((f[i],f[(i+1)%len(f)]))]
                    es.append(p); ds.append(1 if a==f[i] else 0)
                F=S.mkf(es,ds,self.c(2,f))
                if self.em:
                    self.em('newf',{'cyc':[[S.uid(0,self.v[f[i]]),S.uid(1,es[i])] for i in range(len(f))],'c':self.c0(2,F)},0)
            else:
                F=S.mkfv([self.v[x] for x in f],self.c(2,f))
                if self.em: self.em('newfv',{'v':[S.uid(0,self.v[x]) for x in f],'c':self.c0(2,F)},0)
            self.f.setdefault(frozenset(f),[]).append((F,f))
        if g.dim==3:
            for ci,c in enumerate(g.cells):
                c=list(c)
                if self.randdir: r.shuffle(c)
                fs=[];ds=[]
                for f in c:
                    F,ff=self.f[frozenset(f)][0]
                    fs.append(F); ds.append(1 if _samedir(list(f),ff) else 0)
                R=S.mkr(fs,ds,self.c(3,sorted(set(x for f in c for x in f))))
                self.rg.append(R)
                if self.em: self.em('newr',{'u':[[S.uid(2,a),b] for a,b in zip(fs,ds)],'c':self.c0(3,R)},0)
        return self
    def c0(self,k,p): return [getattr(self.S.L,PFX[k]+'_GEntDim')(p),getattr(self.S.L,PFX[k]+'_GEntID')(p)]
def _samedir(a,b):
    i=b.index(a[0]); return b[(i+1)%len(b)]==a[1]

# ------------------------------------------------------------------ view of a snapshot
class View:
    def __init__(self,s):
        self.s=s
        al=lambda x:[i+1 for i,v in enumerate(x) if v==1]
        self.V,self.E,self.F,self.R=al(s['XV']),al(s['XE']),al(s['XF']),al(s['XR'])
        E=s['E'];self.ev={e:tuple(E[e-1]) for e in self.E}
        self.fe={f:[p[0] for p in s['F'][f-1]] for f in self.F}
        self.fv={}
        for f in self.F:
            self.fv[f]=[E[e-1][0] if d==1 else E[e-1][1] for e,d in s['F'][f-1]]
        self.rf={r:[p[0] for p in s['R'][r-1]] for r in self.R}
        self.rd={r:{p[0]:p[1] for p in s['R'][r-1]} for r in self.R}
        self.ve={v:[] for v in self.V}; self.ef={e:[] for e in self.E}; self.fr={f:[] for f in self.F}
        for e in self.E:
            for v in self.ev[e]: self.ve.setdefault(v,[]).append(e)
        for f in self.F:
            for e in self.fe[f]: self.ef.setdefault(e,[]).append(f)
        for r in self.R:
            for f in self.rf[r]: self.fr.setdefault(f,[]).append(r)
        self.rv={r:set(v for f in self.rf[r] for v in self.fv[f]) for r in self.R}
        self.re={r:set(e for f in self.rf[r] for e in self.fe[f]) for r in self.R}
        self.er={e:[r for r in self.R if e in self.re[r]] for e in self.E}
    def vv(self,v): return {w for e in self.ve[v] for w in self.ev[e] if w!=v}
    def kdeps(self):
        """entities that some kept entity refers to, directly or through its boundary"""
        if hasattr(self,'_kd'): return self._kd
        s=self.s; out=set()
        def face(f):
            if 0<f<=len(s['F']):
                for p in s['F'][f-1]:
                    out.add((1,p[0]))
                    if p[0]>0: out.update((0,v) for v in s['E'][p[0]-1])
        for e,x in enumerate(s['XE']):
            if x==2: out|={(0,v) for v in s['E'][e]}
        for f,x in enumerate(s['XF']):
            if x==2: face(f+1)
        for r,x in enumerate(s['XR']):
            if x==2:
                for p in s['R'][r]: out.add((2,p[0])); face(p[0])
        self._kd=out
        return out
    def cls(self,k,u): return self.s['C'+KINDS[k]][u-1]
    def linkok(self,e):
        """contraction of e keeps the mesh a valid complex"""
        a,b=self.ev[e]
        third={w for f in self.ef[e] if len(self.fe[f])==3 for w in self.fv[f]}-{a,b}
        if self.vv(a)&self.vv(b)!=third: return False
        fa={f for f in self.F if a in self.fv[f] and b not in self.fv[f]}
        fb={f for f in self.F if b in self.fv[f] and a not in self.fv[f]}
        sa={}
        for f in fa: sa.setdefault(frozenset(self.fv[f])-{a},[]).append(f)
        for f in fb:
            k=frozenset(self.fv[f])-{b}
            if k in sa:
                # coincident after contraction: must bound a degenerate tet on e
                g=sa[k][0]
                if not any(len(self.rv[r])==4 and f in self.rf[r] and g in self.rf[r] for r in self.er[e]): return False
        if not self.R:
            # triangles (2D): the degenerate ones must not share another edge
            tri=[f for f in self.ef[e] if len(self.fe[f])==3]
            if len(third)!=len(tri): return False
        # a face using both a and b must have e as a side
        for f in self.F:
            if a in self.fv[f] and b in self.fv[f] and e not in self.fe[f]: return False
        # something of full dimension must remain around the edge
        for f in self.ef[e]:
            if len(self.fe[f])==3 and not self.R:
                es=[x for x in self.fe[f] if x!=e]
                if all(len(self.ef[x])==1 for x in es): return False
        # regions: only tets and hexes on e, remaining regions keep distinct faces
        for r in self.er[e]:
            if len(self.rv[r]) not in (4,8): return False
            if len(self.rv[r])==4:
                fs=[f for f in self.rf[r] if e not in self.fe[f]]
                if all(len(self.fr[f])==1 for f in fs): return False
            if len(self.rv[r])==8 and (len(self.rf[r])!=6 or any(len(self.fe[f])!=4 for f in self.rf[r])): return False
        for r in self.R:
            if r not in self.er[e] and a in self.rv[r] and b in self.rv[r]: return False
        return True

class Editor:
    """applies random valid editing operations and logs them"""
    def __init__(self,S,rng,maxv=60):
        self.S=S;self.rng=rng;self.maxv=maxv;self.extra=None; self.norestore=set(); self.mid=False  # mid: new vertices at the middle of what they split
    def view(self): return View(self.S.snap)
    def emit(self,op,a,r,keepdel=()):
        return self.S.emit(op,a,r,keepdel,extra=self.extra)
    def ixyz(self,xyz): return dbl([x/self.S.scale for x in xyz])
    def rxyz(self):
        r=self.rng; sc=self.S.scale
        return [r.randint(-3,8)*sc+r.randint(0,sc-1) for _ in range(3)]
    # -- splits
    def op_split(self,w):
        S,L,r=self.S,self.S.L,self.rng
        if not w.E or len(w.V)>self.maxv: return False
        es=[e for e in w.E if self.free(w,[(1,e)])]
        if not es: return False
        e=r.choice(es); p=S.u2p[1][e]
        big=max([len(w.fe[f]) for f in w.ef[e]]+[0])
        mode=r.random()
        v0=w.ev[e][0]
        if mode<.4:
            if big+1>30: return False
            give=r.random()<.5 and not self.mid
            xyz=self.rxyz() if give else None
            v=L.ME_Split(p,self.ixyz(xyz) if give else None)
            S.sync()
            u=S.uid(0,v)
            es=[S.uid(1,x) for x in S.lst(L.MV_Edges(v))]
            # order the two halves along the old edge
            es.sort(key=lambda x: 0 if v0 in (S.uid(0,L.ME_Vertex(S.u2p[1][x],0)),S.uid(0,L.ME_Vertex(S.u2p[1][x],1))) else 1)
            self.emit('split',{'e':e,'v0':v0,'n':1,'xyz':[xyz] if give else []},{'es':es})
        else:
            n=r.choice([1,2,3,4,5,9])
            if big+n>30 or len(w.V)+n>self.maxv+10: return False
            give=r.random()<.5 and not self.mid
            pts=[self.rxyz() for _ in range(n)] if give else []
            lst=L.ME_MultiSplit(p,n,dbl([x/S.scale for q in pts for x in q]) if give else None)
            S.sync()
            es=[S.uid(1,x) for x in S.lst(lst)]
            self.emit('split',{'e':e,'v0':v0,'n':n,'xyz':pts},{'es':es})
        return True
    def op_fsplit(self,w):
        S,L,r=self.S,self.S.L,self.rng
        fs=[f for f in w.F if len(w.fe[f])<=12 and self.free(w,[(2,f)]) and self.fcls(w,f)]
        if not fs or len(w.V)>self.maxv: return False
        f=r.choice(fs); xyz=self.rxyz(); at=self.ixyz(xyz)
        if self.mid:
            vs=S.lst(L.MF_Vertices(S.u2p[2][f],1,None)); q=dbl([0.]*3); at=dbl([0.]*3)
            for p in vs:
                L.MV_Coords(p,q)
                for i in range(3): at[i]+=q[i]/len(vs)
        v=L.MF_Split(S.u2p[2][f],at)
        S.sync(); self.emit('fsplit',{'f':f,'xyz':xyz},S.uid(0,v)); return True
    def fcls(self,w,f):
        """the corners of f are classified on the closure of f's model entity"""
        c=w.cls(2,f)
        return all(w.cls(0,v)==c or w.cls(0,v)[0]<c[0] for v in w.fv[f])
    def op_fsplite(self,w):
        S,L,r=self.S,self.S.L,self.rng
        fs=[f for f in w.F if len(w.fe[f])>=4 and len(set(w.fv[f]))==len(w.fv[f]) and self.free(w,[(2,f)])]
        if not fs: return False
        big=max(len(w.fe[f]) for f in fs)
        if big>8 and r.random()<.6: fs=[f for f in fs if len(w.fe[f])==big]
        f=r.choice(fs); a=r.choice(w.fv[f]); b=r.choice([v for v in w.fv[f] if v!=a])
        # a chord between vertices already joined by an edge outside this face would create a twin
        com=[e for e in w.ve[a] if b in w.ev[e]]
        if com and com[0] not in w.fe[f]: return False
        if com and r.random()<.8: return False
        e=L.MF_Split_with_Edge(S.u2p[2][f],S.u2p[0][a],S.u2p[0][b])
        S.sync(); self.emit('fsplite',{'f':f,'v0':a,'v1':b},S.uid(1,e)); return True
    def op_simpe(self,w):
        """split an edge together with the triangles and tetrahedra on it"""
        S,L,r=self.S,self.S.L,self.rng
        if len(w.V)>self.maxv or not w.E: return False
        c=[]
        for e in w.E:
            if any(len(w.fe[f])!=3 for f in w.ef[e]): continue
            rs=w.er[e]
            if any(len(w.rf[x])!=4 or any(len(w.fe[f])!=3 for f in w.rf[x]) for x in rs): continue
            if not self.free(w,[(1,e)]+[(2,f) for f in w.ef[e]]+[(3,x) for x in rs]): continue
            far=[v for f in w.ef[e] for v in w.fv[f] if v not in w.ev[e]]
            if len(set(far))!=len(far): continue
            c.append(e)
        if not c: return False
        if r.random()<.6: k=max(len(w.ef[e]) for e in c); c=[e for e in c if len(w.ef[e])>=k-1]
        e=r.choice(c); v0=w.ev[e][0]; xyz=self.rxyz() if r.random()<.6 else None
        v=L.ME_Split_SimplexMesh(S.u2p[1][e],self.ixyz(xyz) if xyz else None)
        S.sync(); self.emit('simpe',{'e':e,'v0':v0,'xyz':[xyz] if xyz else []},S.uid(0,v)); return True
    def op_simpf(self,w):
        S,L,r=self.S,self.S.L,self.rng
        if len(w.V)>self.maxv: return False
        c=[f for f in w.F if len(w.fe[f])==3 and self.fcls(w,f) and all(len(w.rf[x])==4 and all(len(w.fe[g])==3 for g in w.rf[x]) for x in w.fr[f])
           and self.free(w,[(2,f)]+[(3,x) for x in w.fr[f]])]
        c=[f for f in c if len(w.fr[f])<2 or len(set(frozenset(w.rv[x]) for x in w.fr[f]))==2]
        if not c: return False
        if r.random()<.6: k=max(len(w.fr[f]) for f in c); c=[f for f in c if len(w.fr[f])==k]
        f=r.choice(c); xyz=self.rxyz()
        v=L.MF_Split_SimplexMesh(S.u2p[2][f],self.ixyz(xyz))
        S.sync(); self.emit('simpf',{'f':f,'xyz':xyz},S.uid(0,v)); return True
    def op_loopr(self,w):
        """cut a region along a closed loop of its edges"""
        S,L,r=self.S,self.S.L,self.rng
        c=[x for x in w.R if len(w.rf[x])>=6 and self.free(w,[(3,x)])]
        if not c: return False
        x=r.choice(c); lp=self.loop(w,x)
        if not lp: return False
        if r.random()<.5: lp.reverse()
        k=r.randrange(len(lp)); lp=lp[k:]+lp[:k]
        f=L.MR_Split_with_EdgeLoop(S.u2p[3][x],len(lp),ptrs([S.u2p[1][e] for e in lp]))
        S.sync(); self.emit('loopr',{'reg':x,'es':lp},S.uid(2,f)); return True
    def loop(self,w,x):
        """edges, in order, of a simple cycle on the shell of x that leaves at least three faces on either side"""
        r=self.rng; fs=set(w.rf[x])
        # the shell must be a surface: each edge of it in exactly two of the faces
        if any(len([g for g in w.ef[e] if g in fs])!=2 for f in fs for e in w.fe[f]): return None
        nb={f:set(g for e in w.fe[f] for g in w.ef[e] if g in fs and g!=f) for f in fs}
        def conn(T):
            if not T: return False
            st=[next(iter(T))]; seen=set(st)
            while st:
                for g in nb[st.pop()]&T:
                    if g not in seen: seen.add(g); st.append(g)
            return seen==T
        def border(T):
            b=set()
            for f in T: b^=set(w.fe[f])
            d={}
            for e in b:
                for v in w.ev[e]: d.setdefault(v,[]).append(e)
            if not b or len(b)>30 or any(len(l)!=2 for l in d.values()): return None
            e=next(iter(b)); out=[e]; v=w.ev[e][1]
            while True:
                e=[y for y in d[v] if y!=e][0]
                if e==out[0]: break
                out.append(e); v=[u for u in w.ev[e] if u!=v][0]
            return out if len(out)==len(b) else None
        for _ in range(6):
            T={r.choice(sorted(fs))}; n=r.randint(3,max(3,len(fs)-3)); best=None
            while len(T)<n:
                g=sorted(set(h for f in T for h in nb[f])-T)
                if not g: break
                T.add(r.choice(g))
                if 3<=len(T)<=len(fs)-3 and conn(fs-T):
                    b=border(T)
                    if b and len(b)>=3 and not any(set(w.fe[f])==set(b) for f in w.F):
                        best=b
                        if r.random()<.3: break
            if best: return best
        return None
    # -- joins
    def op_joinf(self,w):
        S,L,r=self.S,self.S.L,self.rng
        c=[]
        for e in w.E:
            fs=w.ef[e]
            if len(fs)==2 and fs[0]!=fs[1]:
                f1,f2=fs
                if len(set(w.fe[f1])&set(w.fe[f2]))!=1 or len(set(w.fv[f1])&set(w.fv[f2]))!=2: continue
                if len(w.fe[f1])+len(w.fe[f2])-2>30: continue
                # walked in opposite directions
                d=[dict((p[0],p[1]) for p in w.s['F'][f-1])[e] for f in fs]
                if d[0]==d[1]: continue
                if len(set(w.cls(2,f)[0] for f in fs)|set())!=1: continue
                if w.cls(2,f1)!=w.cls(2,f2): continue
                if w.fr[f1] or w.fr[f2]:
                    s1,s2=set(w.fr[f1]),set(w.fr[f2])
                    if s1==s2:
                        if any(w.rd[x][f1]!=w.rd[x][f2] for x in s1): continue
                        if any(len(w.rf[x])<=4 for x in s1): continue
                        c.append((f1,f2,e))
                    elif r.random()<.05: c.append((f1,f2,e))
                else: c.append((f1,f2,e))
        c=[x for x in c if self.free(w,[(1,x[2]),(2,x[0]),(2,x[1])])]
        if not c: return False
        f1,f2,e=r.choice(c)
        if r.random()<.5: f1,f2=f2,f1
        f=L.MFs_Join(S.u2p[2][f1],S.u2p[2][f2],S.u2p[1][e])
        S.sync(); self.emit('joinf',{'f1':f1,'f2':f2,'e':e},S.uid(2,f)); return True
    def op_joinr(self,w):
        S,L,r=self.S,self.S.L,self.rng
        c=[]
        for f in w.F:
            rs=w.fr[f]
            if len(rs)==2 and len(set(w.rf[rs[0]])&set(w.rf[rs[1]]))==1 and w.cls(3,rs[0])==w.cls(3,rs[1]): c.append((rs[0],rs[1],f))
        c=[x for x in c if self.free(w,[(2,x[2]),(3,x[1]),(3,x[0])])]
        if not c: return False
        r1,r2,f=r.choice(c)
        if r.random()<.5: r1,r2=r2,r1
        x=L.MRs_Join(S.u2p[3][r1],S.u2p[3][r2],S.u2p[2][f])
        S.sync(); self.emit('joinr',{'r1':r1,'r2':r2,'f':f},S.uid(3,x)); return True
    def op_swap(self,w):
        S,L,r=self.S,self.S.L,self.rng
        if w.R: return False
        c=[]
        for e in w.E:
            fs=w.ef[e]
            ok=len(fs)==2 and all(len(w.fe[f])==3 for f in fs)
            if ok:
                d=[dict((p[0],p[1]) for p in w.s['F'][f-1])[e] for f in fs]
                if d[0]==d[1]: continue
                x=[v for f in fs for v in w.fv[f] if v not in w.ev[e]]
                if len(set(x))!=2 or x[1] in w.vv(x[0]): continue
                c.append(e)
            elif len(fs)==2 and r.random()<.03: c.append(e)
        c=[e for e in c if self.free(w,[(1,e)]+[(2,f) for f in w.ef[e]])]
        if not c: return False
        e=r.choice(c); v0=w.ev[e][0]
        en=C.c_void_p(0); fn=(C.c_void_p*2)()
        ok=L.ME_Swap2D(S.u2p[1][e],C.byref(en),fn)
        S.sync()
        self.emit('swap',{'e':e,'v0':v0},{'ok':ok,'e':S.uid(1,en.value) if ok==1 else 0,'f':[S.uid(2,fn[0]),S.uid(2,fn[1])] if ok==1 else []}); return True
    # -- delete / restore
    def free(self,w,lst):
        """nothing kept refers to these"""
        d=w.kdeps(); return not any(x in d for x in lst)
    def unused(self,w):
        d=[(0,v) for v in w.V if not w.ve[v]]+[(1,e) for e in w.E if not w.ef[e]]+[(2,f) for f in w.F if not w.fr[f]]+[(3,x) for x in w.R]
        return d
    def op_del(self,w,keep=None):
        S,L,r=self.S,self.S.L,self.rng
        c=self.unused(w)
        if not c: return False
        k,u=r.choice(c); keep=(r.random()<.5) if keep is None else keep
        if (k,u) in w.kdeps(): keep=True
        p=S.u2p[k][u]
        fn=getattr(L,PFX[k]+'_Delete') if r.random()<.6 else L.MEnt_Delete
        fn(p,1 if keep else 0)
        self.emit('del',{'k':k,'u':u,'keep':1 if keep else 0},[L.MEnt_Dim(p),L.MEnt_OrigDim(p)] if keep else [],keepdel=[(k,u)] if keep else ())
        return True
    def op_restore(self,w):
        S,L,r=self.S,self.S.L,self.rng
        c=[]
        for k in range(4):
            for u in S.kept[k]:
                s=w.s
                if k==1 and not all(v>0 and s['XV'][v-1]==1 for v in s['E'][u-1]): continue
                if k==2 and not all(p[0]>0 and s['XE'][p[0]-1]==1 for p in s['F'][u-1]): continue
                if k==1 and any(set(w.ev[e])==set(s['E'][u-1]) for e in w.E): continue      # no twins
                if k==2 and any(set(w.fe[f])==set(p[0] for p in s['F'][u-1]) for f in w.F): continue
                if k==3 and not all(p[0]>0 and s['XF'][p[0]-1]==1 for p in s['R'][u-1]): continue
                if k==3 and any(q in [pp for rr in w.R for pp in s['R'][rr-1]] for q in s['R'][u-1]): continue
                c.append((k,u))
        c=[x for x in c if x not in self.norestore]
        if not c: return False
        k,u=r.choice(c); p=S.kept[k][u]
        getattr(L,PFX[k]+'_Restore')(p)
        S.sync()
        self.emit('restore',{'k':k,'u':u},[L.MEnt_Dim(p),L.MEnt_OrigDim(p)]); return True
    # -- merges
    def op_merge_glue(self,w):
        """merge two entities of the same kind that coincide: used by the glue scenario"""
        return False
    def op_collapse(self,w,topo=None):
        S,L,r=self.S,self.S.L,self.rng
        if S.kept[0] or S.kept[1] or S.kept[2] or S.kept[3]:
            if w.kdeps(): return False
        c=[e for e in w.E if w.linkok(e)]
        if not c: return False
        e=r.choice(c); topo=r.choice([0,1]) if topo is None else topo
        pref=r.choice([0,1]); v=list(w.ev[e])
        if pref and r.random()<.5: v.reverse()
        vk=v[1]                      # with no preference the second vertex is the candidate survivor
        no=[]
        if topo and r.random()<.5:   # an edge whose ends lie on different model entities, so that it must be refused whatever its surroundings
            no=[(x,v) for x in w.E for v in (w.ev[x] if pref else w.ev[x][1:]) if self.apart(w,x,v,pref)]
        if no: e,vk=r.choice(no)
        elif topo and not self.clsok(w,e,vk,pref): return False
        dl=C.c_void_p(0); mg=C.c_void_p(0)
        x=L.ME_Collapse(S.u2p[1][e],S.u2p[0][vk] if pref else None,topo,C.byref(dl),C.byref(mg))
        back=self.backmap()
        dels=[];merged=[]
        if x:
            dels=[list(back.get(p,(9,0))) for p in S.lst(dl.value)]
            m=[back.get(p,(9,0)) for p in S.lst(mg.value)]
            merged=[[m[i][0],m[i][1],m[i+1][1]] for i in range(0,len(m)-1,2)]
        ux=S.uid(0,x) if x else 0
        dead=[tuple(d) for d in dels]
        ptrs_={t:self.ptrof(t) for t in dead}
        self.emit('collapse',{'e':e,'vk':vk,'pref':pref,'topo':topo},{'v':ux,'del':dels,'merged':merged},keepdel=dead)
        self.norestore|=set(dead)
        # really delete what was only marked, so the next step starts from a plain mesh
        if r.random()<.7: self.purge()
        return True
    def apart(self,w,e,vk,pref):
        a,b=w.ev[e]; k=w.cls(0,vk); d=w.cls(0,a if vk==b else b)
        return k[1]!=d[1] if k[0]==d[0] else pref and d[0]<k[0]
    def clsok(self,w,e,vk,pref):
        """with classification respected: edges/faces that become identical must be mergeable"""
        a,b=w.ev[e]
        mv=lambda x: frozenset(a if y==b else y for y in x)
        g={}
        if any(w.cls(0,v)[0]>min(w.cls(1,x)[0],3) for x in w.E if a in w.ev[x] or b in w.ev[x] for v in w.ev[x]): return False   # not a classification
        for x in w.E:
            if x!=e and (a in w.ev[x] or b in w.ev[x]): g.setdefault((1,mv(w.ev[x])),[]).append(w.cls(1,x))
        for f in w.F:
            if f in w.ef[e] and len(w.fe[f])==3: continue
            if a in w.fv[f] or b in w.fv[f]: g.setdefault((2,mv(w.fv[f])),[]).append(w.cls(2,f))
        return all(c==d or c[0]!=d[0] for x in g.values() for c in x for d in x)
    def backmap(self):
        m={}
        for k in range(4):
            for u,p in self.S.u2p[k].items(): m[p]=(k,u)
            for u,p in self.S.kept[k].items(): m[p]=(k,u)
        return m
    def ptrof(self,t): return self.S.ptr(*t) if t[0]<4 else None
    def purge(self):
        S=self.S
        for k in (3,2,1,0):
            for u,p in list(S.kept[k].items()):
                S.L.MEnt_Delete(p,0)
                del S.kept[k][u]; S.p2u[k].pop(p,None)
                self.emit('del',{'k':k,'u':u,'keep':0},[])
    def op_renum(self,w):
        S,L,r=self.S,self.S.L,self.rng
        k=r.choice([0,1,2,3,9,9])
        # positions that kept entities would come back to are not the subject here
        if any(S.kept): return False
        L.MESH_Renumber(S.mesh,0,5 if k==9 else k)
        self.emit('renum',{'k':k,'how':0,'sel':[1,1,1,1]},0); return True
    def op_setid(self,w):
        """caller assigned identifiers: a permutation of those in use"""
        S,L,r=self.S,self.S.L,self.rng
        if any(S.kept): return False
        k=r.choice([0,1,2,3]); us=list(S.u2p[k])
        if len(us)<2: return False
        us=r.sample(us,r.randint(2,len(us)))
        f=getattr(L,PFX[k]+'_ID'); ids=[f(S.u2p[k][u]) for u in us]; r.shuffle(ids)
        for u,i in zip(us,ids): (getattr(L,PFX[k]+'_Set_ID') if r.random()<.5 else L.MEnt_Set_ID)(S.u2p[k][u],i)
        if r.random()<.4: L.MESH_Enable_LocalIDSearch(S.mesh)
        self.emit('setid',{'k':k,'new':[[u,i] for u,i in zip(us,ids)]},0); return True
    def op_search(self,w):
        self.S.L.MESH_Enable_LocalIDSearch(self.S.mesh); self.emit('noop',{},0); return True
    def op_newv(self,w):
        S=self.S
        if len(w.V)>self.maxv: return False
        xyz=self.rxyz(); p=S.mkv([x/S.scale for x in xyz],[self.rng.randint(0,3),self.rng.randint(1,4)])
        self.emit('newv',{'xyz':xyz,'c':[S.L.MV_GEntDim(p),S.L.MV_GEntID(p)]},0); return True
    def op_newe(self,w):
        S,r=self.S,self.rng
        if len(w.V)<2: return False
        a,b=r.sample(w.V,2)
        if b in w.vv(a): return False
        p=S.mke(S.u2p[0][a],S.u2p[0][b],[r.randint(1,3),r.randint(1,4)])
        self.emit('newe',{'v':[a,b],'c':[S.L.ME_GEntDim(p),S.L.ME_GEntID(p)]},0); return True
    def op_repv(self,w):
        """an edge no face uses gets another vertex"""
        S,r=self.S,self.rng
        c=[e for e in w.E if not w.ef[e] and self.free(w,[(1,e)])]
        if not c: return self.op_newe(w)
        e=r.choice(c); old=r.choice(list(w.ev[e])); keep=[v for v in w.ev[e] if v!=old][0]
        n=[v for v in w.V if v not in w.ev[e] and v not in w.vv(keep)]
        if not n: return False
        v=r.choice(n); S.L.ME_Replace_Vertex(S.u2p[1][e],S.u2p[0][old],S.u2p[0][v])
        self.emit('repv',{'e':e,'old':old,'new':v},0); return True
    def op_newfv(self,w):
        S,r=self.S,self.rng
        if len(w.V)<4: return False
        n=r.choice([3,3,4,5])
        if len(w.V)<n: return False
        vs=r.sample(w.V,n)
        p=S.mkfv([S.u2p[0][v] for v in vs],[r.randint(2,3),r.randint(1,4)])
        self.emit('newfv',{'v':vs,'c':[S.L.MF_GEntDim(p),S.L.MF_GEntID(p)]},0); return True
    def step(self,weights):
        w=self.view()
        ops=[o for o in weights]; tot=sum(weights.values())
        for _ in range(8):
            x=self.rng.random()*tot
            for o in ops:
                x-=weights[o]
                if x<0: break
            if getattr(self,'op_'+o)(w): return o
        return None
