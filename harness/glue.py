"""Profile `glue`: vertices, edges and faces are merged until parts of a mesh that only coincide are connected."""
from gens import *
from profiles import fresh

def both(g1,g2):
    n=len(g1.pts); sh=lambda c:[x+n for x in c]
    cells=list(g1.cells)+[sh(c) if g2.dim==2 else [tuple(sh(f)) for f in c] for c in g2.cells]
    std=(list(g1.std)+[sh(s) if s else None for s in g2.std]) if g1.std and g2.std else None
    return meshes.Geo(g1.dim,list(g1.pts)+[(x+20,y,z) for x,y,z in g2.pts],cells,g1.name+'+'+g2.name,std)

class Glue:
    def __init__(self,ed): self.ed=ed; self.S=ed.S; self.rng=ed.rng; self.sets=[]
    def view(self): return View(self.S.snap)
    def mksets(self):
        S,L,r=self.S,self.S.L,self.rng; w=self.view()
        for i in range(r.choice([0,0,1,2,3])):
            k=r.choice([0,0,1,2]); pool=[w.V,w.E,w.F][k]
            if not pool: continue
            h=L.MSet_New(S.mesh,b'glue%d'%i,k); us=r.sample(pool,min(len(pool),r.choice([1,4,len(pool)])))
            for u in us: L.MSet_Add(h,S.u2p[k][u])
            self.sets.append((k,h))
    def dropsets(self):
        for _,h in self.sets: self.S.L.MSet_Delete(h)
        self.sets=[]
    def members(self,k):
        S,L=self.S,self.S.L; m={p:u for u,p in list(S.u2p[k].items())+list(S.kept[k].items())}
        return [[m.get(L.MSet_Entry(h,i),0) for i in range(L.MSet_Num_Entries(h))] for q,h in self.sets if q==k]
    def merge(self,k,a,b,topo):
        """a survives; returns whether the library merged them"""
        S,L=self.S,self.S.L; fn=[L.MVs_Merge,L.MEs_Merge,L.MFs_Merge][k]
        before=self.members(k); pa,pb=S.u2p[k][a],S.u2p[k][b]
        x=fn(pa,pb,topo); after=self.members(k)
        done=bool(x)
        self.ed.emit(['mergev','mergee','mergef'][k],{'k':a,'d':b,'topo':topo,'sets':before},{'v':S.uid(k,x) if x else 0,'sets':after},keepdel=[(k,b)] if done else ())
        if done: self.ed.norestore.add((k,b))
        return done
    # -- what may be merged
    def vok(self,w,a,b):
        return a!=b and b not in w.vv(a) and not any(a in w.fv[f] and b in w.fv[f] for f in w.F) \
            and not any(a in w.rv[x] and b in w.rv[x] for x in w.R) and (0,b) not in w.kdeps()
    def eok(self,w,a,b):
        return a!=b and set(w.ev[a])==set(w.ev[b]) and not (set(w.ef[a])&set(w.ef[b])) and (1,b) not in w.kdeps()
    def fok(self,w,a,b):
        if a==b or set(w.fe[a])!=set(w.fe[b]) or set(w.fr[a])&set(w.fr[b]) or (2,b) in w.kdeps(): return False
        va,vb=w.fv[a],w.fv[b]; i=vb.index(va[0]); same=vb[(i+1)%len(vb)]==va[1]
        da=[w.rd[x][a] for x in w.fr[a]]; db=[w.rd[x][b] if same else 1-w.rd[x][b] for x in w.fr[b]]
        return len(set(da+db))==len(da+db)
    # -- choosing
    def plan(self,w):
        """pairs of vertices whose merging makes two boundary faces (3D) or edges coincide"""
        r=self.rng
        if w.R:
            fs=[f for f in w.F if len(w.fr[f])==1]; r.shuffle(fs)
            for f in fs[:8]:
                for g in fs:
                    if g==f or len(w.fv[g])!=len(w.fv[f]) or set(w.fv[f])&set(w.fv[g]): continue
                    lp=lambda h:w.fv[h] if w.rd[w.fr[h][0]][h]==1 else w.fv[h][::-1]
                    a,b=lp(f),lp(g)[::-1]; k=r.randrange(len(b)); b=b[k:]+b[:k]
                    if self.allok(w,a,b): return list(zip(a,b))
        else:
            es=[e for e in w.E if len(w.ef[e])==1]; r.shuffle(es)
            for e in es[:8]:
                for g in es:
                    if g==e or set(w.ev[e])&set(w.ev[g]): continue
                    a,b=list(w.ev[e]),list(w.ev[g])
                    if r.random()<.5: b.reverse()
                    if self.allok(w,a,b): return list(zip(a,b))
        return None
    def allok(self,w,a,b):
        return all(self.vok(w,x,y) for x,y in zip(a,b)) and not any(w.vv(x)&set(b) for x in a)
    def bad(self,w):
        """a merge that has to be refused"""
        r=self.rng; k=r.choice([0,1,1,2,2]); c=[]
        if k==0:
            for _ in range(10):
                a,b=r.choice(w.V),r.choice(w.V)
                if w.cls(0,a)!=w.cls(0,b): c=[(a,b,1)]
        elif k==1 and w.E:
            for _ in range(10):
                a,b=r.choice(w.E),r.choice(w.E)
                if set(w.ev[a])!=set(w.ev[b]) and (r.random()<.2 or set(w.ev[a])&set(w.ev[b])): c=[(a,b,r.choice([0,1]))]
        elif k==2 and w.F:
            for _ in range(20):
                a,b=r.choice(w.F),r.choice(w.F)
                e0=self.S.snap['F'][a-1][0]; v0=w.ev[e0[0]][0 if e0[1]==1 else 1]
                if a!=b and v0 in w.fv[b] and e0[0] not in w.fe[b]: c=[(a,b,r.choice([0,1]))]
        if c: self.merge(k,*c[0])
    def twins(self,k,w):
        m={}
        for u in (w.E if k==1 else w.F): m.setdefault(frozenset(w.ev[u] if k==1 else w.fe[u]),[]).append(u)
        ok=self.eok if k==1 else self.fok
        c=[(a,b) for l in m.values() if len(l)>1 for a in l for b in l if ok(w,a,b)]
        return c
    def pair(self,k,a,b):
        r=self.rng
        if r.random()<.5: a,b=b,a
        topo=r.choice([0,1])
        w=self.view(); ok=[self.vok,self.eok,self.fok][k]
        if not ok(w,a,b): return True
        if self.merge(k,a,b,topo): return True
        if topo and r.random()<.5 and ok(self.view(),b,a) and self.merge(k,b,a,1): return True
        return self.merge(k,a,b,0) if r.random()<.9 else False
    def run(self):
        r=self.rng; w=self.view(); p=self.plan(w)
        if not p: return False
        self.mksets(); r.shuffle(p)
        for a,b in p:
            if r.random()<.15: self.bad(self.view())
            if not self.pair(0,a,b): break
            if r.random()<.4:
                c=self.twins(1,self.view())
                if c: self.pair(1,*r.choice(c))
        for k in (1,2):
            for _ in range(12):
                if r.random()<.1: self.bad(self.view())
                c=self.twins(k,self.view())
                if not c: break
                if not self.pair(k,*r.choice(c)): break
        self.dropsets()
        return True
def glue(L,log,rng,count):
    while log.n<count:
        g=lambda:meshes.rand2(rng,True) if d==2 else meshes.rand3(rng,rng.random()<.5)
        d=rng.choice([2,3,3]); a,b=g(),g()
        if len(a.pts)+len(b.pts)>28: continue
        S,_=fresh(L,log,rng,meshes.shuffle(both(a,b),rng),rng.choice(REPS),cls=rng.choice(['flat','flat','model','none']))
        ed=Editor(S,rng); G=Glue(ed)
        for _ in range(rng.randint(0,2)):
            if ed.step({'split':1,'fsplite':1,'loopr':1,'simpe':1}) is None: break
        for _ in range(rng.choice([1,1,2,3])):
            if not G.run(): break
            if rng.random()<.6: ed.purge()
        w=G.view()
        if len({frozenset(w.ev[e]) for e in w.E})==len(w.E) and len({frozenset(w.fe[f]) for f in w.F})==len(w.F):
            for _ in range(rng.randint(0,5)):
                if ed.step({'joinr':3,'joinf':2,'split':1,'simpe':1,'del':1,'loopr':1}) is None: break
