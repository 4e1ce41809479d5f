#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough   - builds the library from /repo, generates histories on it, has TLC decide them.

exit 0: held on everything explored; exit 1 + VIOLATION line: a repeatable violation; exit 2: the machinery failed."""
import sys,os,re,json,time,shutil,subprocess,tempfile,threading,glob
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(HERE,'harness'))
sys.dont_write_bytecode=True
import checks
REPO=os.environ.get('VERIF_REPO','/repo')
JAR='/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
T0=time.time()
class Machinery(Exception): pass

def log(*a): print(*a,file=sys.stderr,flush=True)
def build(work,san):
    out=os.path.join(work,'lib%d'%san)
    p=subprocess.run(['make','-s','-j8','-f',os.path.join(HERE,'harness/Makefile'),'OUT='+out,'SAN=%d'%san,'REPO='+REPO],
                     stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if p.returncode or not os.path.exists(out+'/libmstk.so'): raise Machinery('library does not build:\n'+p.stdout[-3000:])
    return out
MPI=dict(OMPI_ALLOW_RUN_AS_ROOT='1',OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',OMPI_MCA_rmaps_base_oversubscribe='1',
         OMPI_MCA_mpi_yield_when_idle='1',OMPI_MCA_hwloc_base_binding_policy='none',OMPI_MCA_btl='self,vader',
         OMPI_MCA_btl_vader_single_copy_mechanism='none',OMPI_MCA_pml='ob1',OMPI_MCA_plm='isolated',OMP_NUM_THREADS='1',
         OMPI_MCA_orte_tmpdir_base='/tmp')
_asan=None
def env_for(lib,san,tmp):
    global _asan
    e=dict(os.environ); e.update(MPI)
    e['MSTK_LIB']=lib+'/libmstk.so'; e['MSTK_INC']=lib+'/include'; e['PYTHONDONTWRITEBYTECODE']='1'
    e['TMPDIR']=tmp; e['OMPI_MCA_orte_tmpdir_base']=tmp; e['PYTHONHASHSEED']='0'
    if san:
        if _asan is None:
            _asan=subprocess.run(['/usr/bin/gcc','-print-file-name=libasan.so'],stdout=subprocess.PIPE,text=True).stdout.strip()
        e['LD_PRELOAD']=_asan
        e['ASAN_OPTIONS']='detect_leaks=0:handle_segv=1:allocator_may_return_null=1:detect_odr_violation=0:exitcode=99'
    return e
def run(cmd,env,cwd,timeout,out):
    with open(out,'wb') as f:
        p=subprocess.Popen(cmd,env=env,cwd=cwd,stdout=f,stderr=subprocess.STDOUT,stdin=subprocess.DEVNULL,start_new_session=True)
        try: return p.wait(timeout)
        except subprocess.TimeoutExpired:
            try: p.terminate(); p.wait(5)           # mpiexec ends its ranks
            except subprocess.TimeoutExpired: pass
            try: os.killpg(p.pid,9)
            except OSError: pass
            strays(cwd); p.wait(); return 'timeout'
def strays(d):
    """end what a parallel run of ours left behind: processes started with a path in its scratch directory"""
    for x in os.listdir('/proc'):
        if x.isdigit() and int(x)!=os.getpid():
            try:
                if os.fsencode(d)+b'/' in open('/proc/%s/cmdline'%x,'rb').read(): os.kill(int(x),9)
            except OSError: pass
def tail(path,n=4000):
    try: return open(path,'rb').read()[-n:].decode('utf8','replace')
    except OSError: return ''

class Job:
    def __init__(self,work,libs,prop,idx,spec,profile,seed,count,tags,san,ranks,attempt=0,timeout=240,env={}):
        self.__dict__.update(locals()); del self.__dict__['self']
        self.dir=os.path.join(work,'j%d_%d'%(idx,attempt)); os.makedirs(self.dir)
        self.lines=0; self.states=0; self.cov={}
    def go(self):
        """-> None or a dict describing a rejection"""
        tr=os.path.join(self.dir,'trace.ndjson'); out=os.path.join(self.dir,'drive.out')
        env=env_for(self.libs[self.san],self.san,self.dir)
        env['SCRATCH']=self.dir; env.update(self.env)
        drive=[sys.executable,'-X','faulthandler',os.path.join(HERE,'harness','drive.py' if not self.ranks else 'pdrive.py'),
               self.profile,str(self.seed),str(self.count),tr]
        drive=['/usr/bin/setarch','-R']+drive if self.aslr_off() else drive
        if self.ranks: drive=['/usr/bin/mpiexec','-n',str(self.ranks)]+drive
        rc=run(drive,env,self.dir,self.timeout,out)
        crash=None
        if rc in(4,5,127): raise Machinery('driver %s seed %d: %s'%(self.profile,self.seed,tail(out)))
        if rc!=0:
            m=re.findall(r'(?:ERROR: AddressSanitizer: [^\n]*|MSTK[^\n]*FATAL[^\n]*|FATAL[^\n]*|[A-Za-z.]*(?:Error|Exception): [^\n]*|SUMMARY: [^\n]*)',tail(out,20000))
            crash='hang' if rc=='timeout' else 'driver ended with code %s: %s'%(rc,'; '.join(m[-2:])[:300])
        if self.ranks and not os.path.exists(tr): open(tr,'w').close()
        if not os.path.exists(tr): open(tr,'w').close()
        rej=self.tlc(tr)
        if rej: return rej
        if crash: return dict(kind='crash',line=self.lines,tag='run',name=crash,last=self.last(tr,self.lines),out=tail(out))
        if self.lines==0: raise Machinery('driver %s seed %d wrote no log\n%s'%(self.profile,self.seed,tail(out)))
        return None
    def aslr_off(self): return os.path.exists('/usr/bin/setarch') and ASLR_OK
    def last(self,tr,line):
        try:
            with open(tr) as f:
                for i,x in enumerate(f,1):
                    if i==line:
                        r=json.loads(x); return {k:r.get(k) for k in ('op','a','r')}
        except Exception as ex: return str(ex)
    def tlc(self,tr):
        # a torn last line (driver died while writing) is dropped
        data=open(tr,'rb').read()
        if data and not data.endswith(b'\n'):
            data=data[:data.rfind(b'\n')+1]; open(tr,'wb').write(data)
        self.lines=data.count(b'\n')
        if not self.lines: return None
        d=os.path.join(self.dir,'spec'); os.makedirs(d,exist_ok=True)
        for f in glob.glob(os.path.join(HERE,'spec','*.tla'))+glob.glob(os.path.join(HERE,'spec','*.cfg')): shutil.copy(f,d)
        tags=os.path.join(self.dir,'tags.ndjson'); open(tags,'w').write(json.dumps({'tags':self.tags})+'\n')
        env=dict(os.environ); env['TRACE']=tr; env['TAGS']=tags; env.pop('LD_PRELOAD',None); env.pop('CONT',None)
        env['TMPDIR']=self.dir
        out=os.path.join(self.dir,'tlc.out')
        rc=run(['java','-XX:+UseSerialGC','-Xmx3g','-Xss64m','-Djava.io.tmpdir='+self.dir,'-cp',JAR,'tlc2.TLC','-workers','1','-lncheck','final','-noGenerateSpecTE',
                '-metadir',self.dir+'/md','-config',self.spec+'.cfg',self.spec+'.tla'],env,d,TLC_TIMEOUT,out)
        t=tail(out,400000)
        shutil.rmtree(self.dir+'/md',ignore_errors=True); shutil.rmtree(d,ignore_errors=True)
        for x in re.findall(rb'^\{"op":"([^"]*)"',data,re.M): self.cov[x.decode()]=self.cov.get(x.decode(),0)+1
        m=re.search(r'(\d+) states generated, (\d+) distinct',t)
        if m: self.states=int(m.group(2)); self.trans=int(m.group(1))
        if rc==0 and 'No error has been found' in t: return None
        rj=re.findall(r'<<"REJECT", (\d+), "([^"]*)", "([^"]*)"',t)
        if rj:
            l,tag,name=rj[-1]; l=int(l)
            return dict(kind='reject',line=l,tag=tag,name=name,last=self.last(tr,l))
        if 'Parsing or semantic analysis failed' in t or 'java.lang.OutOfMemory' in t or rc in ('timeout',-9,137) or 'StackOverflow' in t or not m and 'evaluat' not in t and 'Attempted' not in t:
            raise Machinery('TLC failed (%s) on %s seed %d:\n%s'%(rc,self.profile,self.seed,t[-3000:]))
        # evaluation error or plain non-acceptance: the line cannot be explained by the specification
        st=re.findall(r'/\\ l = (\d+)|^l = (\d+)',t,re.M)
        m2=re.search(r'The depth of the complete state graph search is (\d+)',t)
        l=int(m2.group(1)) if m2 else max([int(a or b) for a,b in st] or [0])
        er=re.search(r'Error: (?!The error occurred|Postcondition|TLC threw)([^\n]*)\n?([^\n]*)',t)
        return dict(kind='noexplain',line=l,tag='base',name='no behaviour of the specification explains this line: '+(' '.join(er.groups())[:200] if er else ''),last=self.last(tr,l))
ASLR_OK=True; TLC_TIMEOUT=400

def mc(work,m):
    """exhaustive check of a small configuration of the specification; -> (states, transitions)"""
    d=os.path.join(work,'mc_'+m['cfg']); os.makedirs(d)
    for f in glob.glob(os.path.join(HERE,'spec','*.tla'))+glob.glob(os.path.join(HERE,'spec','*.cfg')): shutil.copy(f,d)
    out=os.path.join(d,'out')
    rc=run(['java','-XX:+UseParallelGC','-Xmx8g','-Xss64m','-Djava.io.tmpdir='+d,'-cp',JAR,'tlc2.TLC','-workers',str(m.get('workers',4)),'-noGenerateSpecTE','-metadir',d+'/md',
            '-config',m['cfg']+'.cfg',m['module']+'.tla']+m.get('args',[]),dict(os.environ),d,m.get('timeout',700),out)
    t=tail(out,200000)
    g=re.findall(r'(\d+) states generated, (\d+) distinct',t)
    if rc!=0 or 'No error has been found' not in t: raise Machinery('model %s does not check:\n%s'%(m['cfg'],t[-3000:]))
    shutil.rmtree(d,ignore_errors=True)
    return int(g[-1][1]),int(g[-1][0])

def enumerate_paths(work,m):
    """TLC explores a small model (exhaustively, or by random walks) and prints the paths the harness then executes
    -> (file of paths, distinct states, transitions)"""
    d=os.path.join(work,'en_'+m['name']); os.makedirs(d)
    for f in glob.glob(os.path.join(HERE,'spec','*.tla')): shutil.copy(f,d)
    with open(os.path.join(d,'En.cfg'),'w') as f:
        f.write('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'+''.join(' %s = %s\n'%kv for kv in m['const'].items()))
        if not m.get('sim') and m.get('view'): f.write('VIEW %s\n'%m['view'])
        f.write('INVARIANTS '+' '.join(m['inv'])+'\n')
    out=os.path.join(d,'out')
    rc=run(['java','-XX:+UseParallelGC' if m.get('workers',2)>1 else '-XX:+UseSerialGC','-Xmx6g','-Xss64m','-Djava.io.tmpdir='+d,'-cp',JAR,'tlc2.TLC','-workers',str(m.get('workers',2)),'-lncheck','final','-noGenerateSpecTE','-metadir',d+'/md',
            '-config','En.cfg']+(['-simulate','num=%d'%m['sim'],'-depth',str(m['len']),'-seed',str(m['seed'])] if m.get('sim') else [])+[m['module']+'.tla'],dict(os.environ),d,m.get('timeout',600),out)
    t=open(out,encoding='utf8',errors='replace').read()
    dec=lambda k:[json.loads(json.loads('"'+x+'"')) for x in re.findall(r'<<"%s", "((?:[^"\\]|\\.)*)">>'%k,t)]
    g=re.findall(r'(\d+) states generated, (\d+) distinct',t) or [(x,x) for x in re.findall(r'number of states generated: (\d+)',t)]
    if rc!=0 or not g or 'Error:' in t: raise Machinery('model %s does not check:\n%s'%(m['name'],'\n'.join(x for x in t.splitlines() if 'PATH' not in x)[-3000:]))
    p=os.path.join(work,'paths_'+m['name']); P=dec('PATH')
    json.dump(dec('START'),open(p+'.starts','w'))
    with open(p,'w') as f:
        for x in P: f.write(json.dumps(x,separators=(',',':'))+'\n')
    if not P: raise Machinery('model %s printed no path'%m['name'])
    shutil.rmtree(d,ignore_errors=True)
    return p,int(g[-1][1]),int(g[-1][0])

def known(prop):
    out=[]
    p=os.path.join(HERE,'known-findings.txt')
    if os.path.exists(p):
        for x in open(p):
            m=re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)',x.strip())
            if m and m.group(1)==prop: out.append((m.group(2),m.group(3)))
    return out
def key(rej):
    return re.sub(r'[^A-Za-z0-9]+','-','%s/%s/%s'%((rej.get('last') or {}).get('op') if isinstance(rej.get('last'),dict) else '',rej['tag'],rej['name'])).strip('-')[:120]

def main():
    global ASLR_OK
    prop=sys.argv[1]; tier=(sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick'))
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    cfg=checks.PROPS[prop]
    work=tempfile.mkdtemp(prefix='mstkv-%s-'%prop)
    ev=os.path.join(HERE,'evidence'); os.makedirs(ev,exist_ok=True)
    rc=2; viol=[]
    try:
        ASLR_OK=subprocess.run(['/usr/bin/setarch','-R','true'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL).returncode==0 if os.path.exists('/usr/bin/setarch') else False
        plan=cfg['plan'](tier)
        px=ThreadPoolExecutor(3); fe=[px.submit(lambda m:(m,enumerate_paths(work,m)),m) for m in cfg.get('paths',lambda t,s:[])(tier,seed)]
        sans=sorted({j.get('san',1) for j in plan}|({1} if fe else set()))
        libs={s:build(work,s) for s in sans}
        log('built %.1fs'%(time.time()-T0))
        jobs=[];i=0;mcres=[]
        for f in fe:
            m,(p,a,b)=f.result(); mcres.append((a,b)); n=m['shards']
            for ranks in (m.get('ranks') or [0]):
                for k in range(n):
                    jobs.append(dict(idx=1000+len(jobs),spec=m['spec'],profile=m['profile'],seed=seed*1000+k,count=m.get('count',300),tags=cfg.get('tags',[]),san=1,ranks=ranks,
                        timeout=m.get('jobtime',240 if tier=='quick' else 900),env=dict({'PATHS':p},**m.get('env',{}),**({'SLICE':'%d/%d'%(k,n)} if m.get('all') else {}))))
        for j in plan:
            for k in range(j.get('shards',1)):
                jobs.append(dict(idx=i,spec=j.get('spec','MeshTrace'),profile=j['profile'],seed=seed*1000+i if not j.get('fixed') else k,count=j.get('count',150),
                                 tags=j.get('tags',cfg.get('tags',[])),san=j.get('san',1),ranks=j.get('ranks',0),timeout=j.get('timeout',240 if tier=='quick' else 600))); i+=1
        stop=threading.Event(); done=[]; rejs=[]; errs=[]
        budget=700 if tier=='quick' else 3*3600
        def one(kw,attempt=0):
            if stop.is_set() or time.time()-T0>budget: return None
            J=Job(work,libs,prop,attempt=attempt,**kw)
            try: r=J.go()
            except Machinery as ex: errs.append(str(ex)); stop.set(); return None
            return J,r
        def first(kw):
            x=one(kw)
            if x is None: return
            J,r=x
            if r: rejs.append((kw,r)); 
            else: done.append(J)
            if r and len(rejs)>=4: stop.set()
            if not r: shutil.rmtree(J.dir,ignore_errors=True)
        par=max(1,min(8,cfg.get('parallel',8)))
        order=sorted(jobs,key=lambda k:-k['ranks'])
        with ThreadPoolExecutor(par) as ex:
            fm=[ex.submit(mc,work,m) for m in cfg.get('mc',lambda t:[])(tier)]
            list(ex.map(first,order))
            for f in fm:
                try: mcres.append(f.result())
                except Machinery as e: errs.append(str(e))
        stop.clear()
        confirmed=[]; unrep=[]
        kn=known(prop); seen=set()
        for kw,r in rejs:
            ok=False
            for a in range(1,4):
                try:
                    J=Job(work,libs,prop,attempt=a,**kw); r2=J.go()
                except Machinery as ex2: errs.append(str(ex2)); break
                if r2: ok=True; break
            if not ok: unrep.append((kw,r)); continue
            confirmed.append((kw,r))
        for kw,r in confirmed:
            kk=key(r)
            hit=[x for x in kn if x[0]==kk]
            if hit:
                if kk not in seen: print('KNOWN-FINDING: property=%s %s'%(prop,hit[0][1]))
                seen.add(kk); continue
            rp=os.path.join(ev,'replay-%s-%d.json'%(prop,len(viol)+1))
            json.dump(dict(property=prop,key=kk,profile=kw['profile'],seed=kw['seed'],count=kw['count'],ranks=kw['ranks'],spec=kw['spec'],tags=kw['tags'],**r),open(rp,'w'),indent=1)
            viol.append((rp,r)); print('VIOLATION property=%s replay=%s'%(prop,rp)); print('  %s line %s: [%s] %s; call %s'%(kw['profile'],r['line'],r['tag'],r['name'],json.dumps(r.get('last'))[:300])); sys.stdout.flush()
        for kw,r in unrep: log('not repeatable, ignored: %s %s %s'%(kw['profile'],kw['seed'],r['name']))
        for e in errs: log('ERROR:',e)
        cov={}
        for J in done:
            for k,v in J.cov.items(): cov[k]=cov.get(k,0)+v
        lines=sum(J.lines for J in done)
        evd=dict(property=prop,tier=tier,seed=seed,level=cfg.get('level','model_checking'),
            coverage=dict(states=sum(J.states for J in done)+sum(x[0] for x in mcres),transitions=sum(getattr(J,'trans',0) for J in done)+sum(x[1] for x in mcres),
                 traces_validated_against_impl=len(done),log_lines_validated=lines,exhaustive_model_states=sum(x[0] for x in mcres),
                 operations=cov,samples=[dict(profile=J.profile,seed=J.seed,lines=J.lines) for J in done[:6]],
                 obligations_enforced=cfg.get('tags',[])),
            assumptions=cfg.get('assume',[]),wall_s=round(time.time()-T0,1),violations=len(viol))
        json.dump(evd,open(os.path.join(ev,prop+'.json'),'w'),indent=1)
        print('%s %s: %d histories, %d calls checked, %d model states, %d violations, %.1fs'%(prop,tier,len(done),lines,sum(x[0] for x in mcres),len(viol),time.time()-T0))
        if viol: rc=1
        elif errs: rc=2
        else: rc=0
    except Machinery as ex:
        log('ERROR:',ex); rc=2
    finally:
        if not os.environ.get('KEEP'): shutil.rmtree(work,ignore_errors=True)
        else: log('kept',work)
    sys.exit(rc)
main()
