"""profiles: named scenario mixes.  Each runs until about `count` log lines were written."""
from gens import *

def fresh(L,log,rng,g,rep=F1,way=None,cls=None,stepwise=False,obs=True):
    S=Session(L,rep,log,obs=obs)
    way=way or rng.choice(['edges','edges','verts'])
    cls=rng.choice(cls) if isinstance(cls,list) else cls or rng.choice(['flat','box','box','model','model','none'])
    if cls=='box' and not g.box: cls='flat'
    if stepwise:
        S.emit('init')
        b=Builder(S,g,rng,way,cls,emit=lambda op,a,r:S.emit(op,a,r)).build()
    else:
        b=Builder(S,g,rng,way,cls).build(); S.emit('init')
    return S,b
def episode(L,log,rng,g,weights,n,rep=F1,maxv=60,**kw):
    S,b=fresh(L,log,rng,g,rep,**kw)
    ed=Editor(S,rng,maxv)
    for _ in range(n):
        if ed.step(weights) is None: break
    return S
def run_edit(weights,dims=(2,3),steps=12,simplex=False,stepwise=.15,reps=REPS,cls=None,maxv=60):
    def prof(L,log,rng,count):
        while log.n<count:
            d=rng.choice(dims)
            g=meshes.rand2(rng) if d==2 else meshes.rand3(rng,simplex if isinstance(simplex,bool) else rng.random()<simplex)
            g=meshes.shuffle(g,rng)
            episode(L,log,rng,g,weights,rng.randint(steps//2,steps),rep=rng.choice(reps),maxv=maxv,
                    stepwise=rng.random()<stepwise and len(g.pts)<25,cls=cls)
    return prof
PROFILES={
 'mix':run_edit(dict(split=3,fsplit=2,fsplite=3,joinf=3,joinr=2,swap=2,collapse=3,newv=1,newe=.5,restore=2,**{'del':2})),
 'split':run_edit(dict(split=4,fsplit=3,fsplite=4),steps=8),
}
PROFILES['mix']=run_edit({'repv':.7,'split':3,'fsplit':2,'fsplite':3,'joinf':3,'joinr':2,'swap':2,'collapse':3,'newv':1,'newe':.5,'newfv':.5,'restore':2,'del':2})

PROFILES.update(
 collapse=run_edit(dict(collapse=8,split=1,joinf=.5,fsplite=.5,swap=1,fsplit=.5),steps=8,simplex=.6,cls=['flat','box','box','model','model','none','ends']),
 join=run_edit(dict(joinf=4,joinr=4,swap=4,fsplite=1,fsplit=1,collapse=.3),steps=10),
 delrest=run_edit({'repv':.7,'del':6,'restore':5,'newv':1,'newe':1,'newfv':1,'split':.7,'fsplite':.5,'search':.3},steps=24),
 ids=run_edit({'del':5,'restore':2,'newv':2,'newe':1,'newfv':1,'split':1,'fsplit':1,'joinf':1,'joinr':.5,'collapse':1,'renum':2,'setid':2,'search':2},steps=30),
)
def bigcells(L,log,rng,count):
    """a region with more than 32 (and more than 64) faces: direction bits beyond the first word"""
    while log.n<count:
        g=meshes.shuffle(meshes.bigpoly(rng.choice([3,3,4])) if rng.random()<.7 else meshes.extrude(meshes.ngon(rng.choice([25,30]))),rng)
        episode(L,log,rng,g,{'del':5,'restore':5,'newv':.5,'newe':.5,'fsplite':.5,'split':.3,'joinr':1},rng.randint(6,12),rep=rng.choice(REPS),maxv=200,stepwise=False)
PROFILES['bigcells']=bigcells
PROFILES.update(
 simplex=run_edit(dict(simpe=5,simpf=4,split=.5,joinr=.3,joinf=.3,swap=.3,**{'del':.5}),steps=6,simplex=.9,maxv=40),
 loops=run_edit(dict(loopr=5,fsplite=4,split=1.5,joinr=1,joinf=.5,fsplit=.5),dims=(3,),steps=10),
)
import cont
PROFILES.update(lists=cont.lists,sets=cont.sets,attrs=cont.attrs)
import paths
PROFILES.update(mesh_paths=paths.mesh_paths,list_paths=paths.list_paths)
import xform
PROFILES.update(xform.PROFILES)
import cls
PROFILES.update(cls.PROFILES)
import elem
import reps
import glue
import geom
PROFILES.update(geom.PROFILES)
PROFILES['glue']=glue.glue
PROFILES.update(reps.PROFILES)
PROFILES.update(faces=elem.faces,regions=elem.regions,bigregions=elem.bigregions,elems=elem.elems)
