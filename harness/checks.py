"""Which histories are generated and which obligations of the specification are enforced for each property."""
BASE=['wf','closed']
def plan(*jobs):
    """jobs: (profile, quick shards, lines per shard, extra)"""
    def f(tier):
        out=[]
        for p,n,c,*kw in jobs:
            d=dict(profile=p,shards=n if tier=='quick' else n*6,count=c if tier=='quick' else c*3)
            if kw: d.update(kw[0])
            out.append(d)
        return out
    return f
XT=dict(spec='XformTrace'); LT=dict(spec='ListTrace'); ST=dict(spec='SetTrace'); AT=dict(spec='AttrTrace')
def par(profiles,count,ranks=(2,3,3,4,5)):
    return plan(*[(p,1,count,dict(spec='DistTrace',ranks=n,timeout=150)) for p in profiles for n in ranks])
ALLSTARTS='{1,2,3,4,5,6,7,8,9,10,11,12,13,14}'
MESHINV=['InvWF','InvClosed','InvSimple','InvEuler','InvInverse','InvClass','Oriented']
def meshmc(ops,last=None,blocks=''):
    """paths of MeshMC whose last action is one of `last`"""
    everything='{"split","simplex","merge","join","collapse","del","new"}'; L=','.join(last or [])
    def f(tier,seed):
        b=dict(module='MeshMC',inv=MESHINV,view='View',spec='MeshTrace',profile='mesh_paths',env={'LAST':L,'BLOCKS':blocks})
        K=lambda depth,ops=ops,starts=ALLSTARTS: dict(Starts=starts,Depth=depth,Ops=ops,Emit=1)
        if tier=='quick':
            return [dict(b,name='all1',const=K(1),all=1,shards=3),
                    dict(b,name='walk',const=K(6,everything),sim=14,len=7,seed=seed,workers=1,shards=3,count=300)]
        return [dict(b,name='all2',const=K(2,everything),all=1,shards=48,workers=4,timeout=1500,jobtime=1500),
                dict(b,name='all3',const=K(3,starts='{1,4,5}'),all=1,shards=48,workers=4,timeout=1500,jobtime=1500),
                dict(b,name='walk',const=K(9,everything),sim=150,len=10,seed=seed,workers=1,shards=16,count=3000,timeout=1500,jobtime=1500)]
    return f
def listmc(tier,seed):
    b=dict(module='ListMC',inv=['Refines','GapOK','SizeOK'],view='View',spec='ListTrace',profile='list_paths',all=1)
    if tier=='quick': return [dict(b,name='lists',const=dict(Val=2,Len0='{0,1,3}',MaxRaw=4,Depth=9,Emit=1),shards=3)]
    return [dict(b,name='lists',const=dict(Val=3,Len0='{0,1,3,7}',MaxRaw=6,Depth=12,Emit=1),shards=64,workers=4,timeout=2500,jobtime=2000)]
DISTINV=['Static','Mutual','NoDeadlock','Delivered']
def distmc(how,steps=''):
    """partitions enumerated by DistMC, distributed and woven for real"""
    def f(tier,seed):
        b=dict(module='DistMC',inv=DISTINV,spec='DistTrace',profile='paths',env={'HOW':how,'STEPS':steps})
        K=lambda cases,proto: dict(Cases='{%s}'%cases,Rings='{0,1}',Proto=proto,Emit=1)
        if tier=='quick':
            return [dict(b,name='parts',const=K('12,13,14,22,32,33,52,53,54,62,82,92,93,94',0),shards=1,ranks=[2,3,4],count=60,jobtime=150)]
        return [dict(b,name='parts',const=K('12,13,14,22,23,24,32,33,42,52,53,54,62,72,82,83,84,92,93,94,102,103,104',0),all=1,shards=16,ranks=[2,3,4],timeout=1500,jobtime=2500,workers=4),
                dict(b,name='updates',const=dict(K('12,13,14,22,32,33,52,53,62,82,92,93,94,103',1)),shards=1,ranks=[3],count=10,timeout=2500,jobtime=500,workers=4)]
    return f
PROPS={
 'C01':dict(tags=['adj','wf'],plan=plan(('mix',11,220),('delrest',4,150),('bigcells',2,40)),paths=meshmc('{"split","join","collapse","del","new"}')),
 'C02':dict(tags=['rep'],plan=plan(('reps',16,90,dict(spec='RepTrace')))),
 'C03':dict(tags=['face','wf','adj','split','join'],plan=plan(('faces',10,75),('elems',3,60),('mix',2,150)),paths=meshmc('{"split","join"}',blocks='f')),
 'C04':dict(tags=['region','wf','adj'],plan=plan(('regions',9,75),('bigregions',5,130),('elems',3,60)),paths=meshmc('{"split","join","del"}',blocks='r')),
 'C05':dict(tags=['elem','make','wf','closed','adj'],plan=plan(('elems',16,80)),paths=meshmc('{"split","join","collapse"}',blocks='fr')),
 'C06':dict(tags=['ids','renum'],plan=plan(('ids',16,300))),
 'C07':dict(tags=['del','make','adj','ids'],plan=plan(('delrest',12,250),('bigcells',4,60),('attrs',4,400,AT)),paths=meshmc('{"del","new"}',['del','restore','newe','newfv'])),
 'C08':dict(tags=['list'],plan=plan(('lists',14,800,LT)),paths=listmc),
 'C09':dict(tags=['set'],plan=plan(('sets',16,500,ST))),
 'C10':dict(tags=['attr'],plan=plan(('attrs',16,500,AT))),
 'C11':dict(tags=['split','wf','closed','adj'],plan=plan(('split',8,200),('simplex',5,110),('loops',4,110)),paths=meshmc('{"split","simplex"}',['split', 'fsplit', 'fsplite','simpe','simpf','loopr'])),
 'C12':dict(tags=['collapse','wf','closed','adj'],plan=plan(('collapse',16,200)),paths=meshmc('{"collapse"}',['collapse'])),
 'C13':dict(tags=['join','wf','closed','adj'],plan=plan(('join',9,200),('glue',7,200)),paths=meshmc('{"join","merge"}',['joinf', 'joinr', 'swap','mergev','mergee','mergef'])),
 'C14':dict(tags=['copy'],plan=plan(('copy',16,70,XT))),
 'C15':dict(tags=['io'],plan=plan(('native',16,90,XT))),
 'C16':dict(tags=['exo','io'],plan=plan(('exo',16,110,XT))),
 'C17':dict(tags=['files'],plan=plan(('gmv',10,110,XT),('surf',6,200,XT))),
 'C18':dict(tags=['gen'],plan=plan(('gen',16,90,XT))),
 'C19':dict(tags=['base','classfn'],plan=plan(('classfn',16,400,dict(spec='ClassTrace')))),
 'C20':dict(tags=['graph'],plan=plan(('graph',10,120,XT),('exograph',6,90,XT))),
 'C21':dict(tags=['renumx'],plan=plan(('renum',16,110,XT))),
 'C22':dict(tags=['conv'],plan=plan(('conv',16,80,XT))),
 'C23':dict(tags=['base','topo'],plan=plan(('topo',16,500,dict(spec='ClassTrace')))),
 'C24':dict(tags=['same'],plan=plan(('reps',16,90,dict(spec='RepTrace')))),
 'C25':dict(tags=['base','dist'],plan=par(['dist','dist','mix'],120),paths=distmc('dist')),
 'C26':dict(tags=['base','ghost'],plan=par(['dist','pdel','weave'],120),paths=distmc('dist,weave')),
 'C27':dict(tags=['base','gid'],plan=par(['dist','weave','mix','pdel'],120),paths=distmc('dist,weave','renum')),
 'C28':dict(tags=['base','upd'],plan=par(['upd','upd','mix','pdel'],150),paths=distmc('dist','update')),
 'C29':dict(tags=['base','gs'],plan=par(['gs','gs','mix','pdel'],150),paths=distmc('dist','gs')),
 'C30':dict(tags=['base','xchg'],plan=par(['xchg','xchg','mix'],150),paths=distmc('dist,weave','xchg,coords')),
 'C31':dict(tags=['base','weave','ghost','gid'],plan=par(['weave','weave','weave'],120),paths=distmc('weave')),
 'C32':dict(tags=['base','check'],plan=par(['check','check','mix'],150),paths=distmc('dist,weave','check')),
 'C34':dict(tags=['geom'],plan=plan(('geom',16,90,dict(spec='GeomTrace')))),
 'C36':dict(tags=['base','nem'],plan=par(['nem','nem'],60)),
 'C35':dict(tags=['base','dist','ghost','gid'],plan=par(['pio','pio','pio'],60)),
 'C33':dict(tags=['base','part','dist'],plan=par(['part','part'],120,(2,3,4,5,6))),
}
NA={}
