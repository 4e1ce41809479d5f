"""ctypes binding of the MSTK C API; prototypes are read from the tree's own headers."""
import ctypes as C, os, re, sys

F1,F4,R1,R2,R4=range(5)
REPNAME=['F1','F4','R1','R2','R4']
MVERTEX,MEDGE,MFACE,MREGION,MUNK,MALL,MANY=0,1,2,3,4,5,6
INT,DOUBLE,POINTER,VECTOR,TENSOR=range(5)
OP_MAX,OP_MIN,OP_SUM,OP_AVG=1,2,3,4

class Lib: pass

_ENUMS={'int','MType','RepType','PType','MFType','MRType','MAttType','MAttOpType','MshFmt','ErrType','unsigned int'}
def _ctype(t):
    t=re.sub(r'\bconst\b','',t).strip()
    t=re.sub(r'\s+',' ',t)
    if t=='void': return None
    if t=='double': return C.c_double
    if t in('char *','char*'): return C.c_char_p
    if t in _ENUMS: return C.c_int
    if t=='size_t': return C.c_size_t
    return C.c_void_p

def _protos(path):
    s=open(path,errors='replace').read()
    s=re.sub(r'/\*.*?\*/',' ',s,flags=re.S); s=re.sub(r'//[^\n]*','',s)
    s=re.sub(r'^\s*#.*?(?<!\\)$','',s,flags=re.M)
    out={}
    for m in re.finditer(r'([A-Za-z_][A-Za-z0-9_ ]*?[ \*]+)([A-Za-z_]\w+)\s*\(((?:[^()]|\([^()]*\))*)\)\s*;',s):
        rt,name,args=m.group(1).strip(),m.group(2),m.group(3)
        if rt.startswith(('return','typedef','else')): continue
        rt=rt.replace('extern','').strip()
        at=[]
        args=args.strip()
        if args and args!='void':
            # split on commas outside parens
            depth=0;cur='';parts=[]
            for ch in args:
                if ch=='(':depth+=1
                if ch==')':depth-=1
                if ch==','and depth==0: parts.append(cur);cur=''
                else: cur+=ch
            parts.append(cur)
            for p in parts:
                p=re.sub(r'\bconst\b','',p).strip()
                if '(*' in p or '[' in p: at.append(C.c_void_p);continue
                if '*' in p:
                    at.append(C.c_char_p if re.match(r'char\s*\*\s*\w*$',p) else C.c_void_p);continue
                w=p.split()
                t=' '.join(w[:-1]) if len(w)>1 else w[0]
                at.append(_ctype(t))
        out[name]=(_ctype(rt),at)
    return out

def load(path=None,inc=None):
    path=path or os.environ['MSTK_LIB']; inc=inc or os.environ.get('MSTK_INC','/repo/include')
    dll=C.CDLL(path,mode=C.RTLD_GLOBAL)
    L=Lib()
    for h in ('MSTK.h','MSTK_private.h','MSTK_externs.h'):
        p=os.path.join(inc,h)
        if not os.path.exists(p): continue
        for n,(rt,at) in _protos(p).items():
            if hasattr(L,n): continue
            try: f=getattr(dll,n)
            except AttributeError: continue
            f.restype=rt; f.argtypes=at
            setattr(L,n,f)
    L.dll=dll
    return L

def dbl(seq): return (C.c_double*len(seq))(*seq)
def ints(seq): return (C.c_int*max(1,len(seq)))(*seq)
def ptrs(seq): return (C.c_void_p*max(1,len(seq)))(*seq)
