#!/usr/bin/env python3
"""setup: parse every TLA+ module once, so that a broken toolchain shows up early."""
import subprocess,glob,os,sys,tempfile,shutil
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d=tempfile.mkdtemp(); bad=0
for f in glob.glob(H+'/spec/*'): shutil.copy(f,d)
for f in sorted(glob.glob(d+'/*.tla')):
    p=subprocess.run(['java','-cp','/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar','tla2sany.SANY',os.path.basename(f)],cwd=d,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    ok=p.returncode==0 and 'Error' not in p.stdout
    print(os.path.basename(f),'ok' if ok else 'FAILED'); 
    if not ok: bad=1; print(p.stdout)
shutil.rmtree(d); sys.exit(bad)
