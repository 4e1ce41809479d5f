"""driver process: python3 drive.py PROFILE SEED COUNT OUT  (library in MSTK_LIB)"""
import sys,random,os,json,traceback
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import mstk,drv
def main():
    prof,seed,count,out=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),sys.argv[4]
    import profiles
    L=mstk.load()
    L.MSTK_Init()
    log=drv.Log(out)
    rng=random.Random('%s-%d'%(prof,seed))
    try:
        profiles.PROFILES[prof](L,log,rng,count)
    except Exception as ex:
        traceback.print_exc()
        if 'Cannot choose from an empty' in str(ex) or 'Sample larger than population' in str(ex):
            os._exit(0 if log.n else 5)      # the generator ran out of candidates: what was logged stands
        os._exit(4 if isinstance(ex,(OSError,MemoryError)) else 3)
    sys.stdout.flush(); os._exit(0)
main()
