------------------------------ MODULE XformTrace ----------------------------
(* Operations that make one mesh from another, or from a description: copying,  *)
(* writing and reading, generation, conversion, renumbering, element graphs     *)
(* (C14..C18, C20..C22).                                                        *)
(* State: A, B - the two meshes as last observed.  Entities are numbered by     *)
(* iteration order.  The log supplies a proposed correspondence w (A -> B); a   *)
(* step is accepted when w is an isomorphism of the required kind.              *)
EXTENDS Mesh, Json, IOUtils, TLCExt
Log  == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tags == Range(ndJsonDeserialize(IOEnv.TAGS)[1].tags)
Cont == "CONT" \in DOMAIN IOEnv
VARIABLES l, A, B
vars == <<l, A, B>>
Chk(tag,name,cond) == IF tag \notin Tags THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECT", l, tag, name>>) /\ Cont
Has(x,f) == f \in DOMAIN x

(* ------------------------- reading an observed mesh ----------------------- *)
Readable(s) ==
  /\ \A e \in DOMAIN s.E : \A i \in {1,2} : s.E[e][i] \in DOMAIN s.V
  /\ \A f \in DOMAIN s.F : s.F[f] # <<>> /\ \A i \in DOMAIN s.F[f] : s.F[f][i][1] \in DOMAIN s.E /\ s.F[f][i][2] \in {0,1}
  /\ \A r \in DOMAIN s.R : \A i \in DOMAIN s.R[r] : s.R[r][i][1] \in DOMAIN s.F /\ s.R[r][i][2] \in {0,1}
Ones(s) == [i \in DOMAIN s |-> 1]
Full(s) == [V |-> s.V,
            E |-> TLCEval([e \in DOMAIN s.E |-> Range(s.E[e])]),
            F |-> TLCEval([f \in DOMAIN s.F |-> CanonCyc(RawCyc(s.E,s.F[f]))]),
            R |-> TLCEval([r \in DOMAIN s.R |-> Range(s.R[r])]),
            X |-> [V |-> Ones(s.V), E |-> Ones(s.E), F |-> Ones(s.F), R |-> Ones(s.R)]]
Counts(s) == s.n = <<Len(s.V),Len(s.E),Len(s.F),Len(s.R)>>
Conforming(M) == WF(M) /\ Closed(M) /\ NoTwinEdges(M) /\ NoTwinFaces(M)

(* ------------------------------ isomorphism ------------------------------- *)
Bij(m,a,b) == Len(m) = Len(a) /\ Len(a) = Len(b) /\ \A i \in DOMAIN m : m[i] \in DOMAIN b /\ \A j \in DOMAIN m : i # j => m[i] # m[j]
BijFast(m,a,b) == Len(m) = Len(a) /\ Len(a) = Len(b) /\ Range(m) = DOMAIN b
MapC(c,w) == TLCEval([i \in DOMAIN c |-> <<w.V[c[i][1]], w.E[c[i][2]]>>])
\* per face: 1 same walk, 0 reversed walk, 2 something else
FaceSense(a,b,w) == TLCEval([f \in DOMAIN a.F |->
     LET c == MapC(RawCyc(a.E,a.F[f]),w) d == CanonCyc(RawCyc(b.E,b.F[w.F[f]])) IN
     IF CanonCyc(c) = d THEN 1 ELSE IF CanonCyc(RevCyc(c)) = d THEN 0 ELSE 2])
RegMap(a,w,sense) == [r \in DOMAIN a.R |-> {<<w.F[p[1]], IF sense[p[1]] = 1 THEN p[2] ELSE 1-p[2]>> : p \in Range(a.R[r])}]
\* strict: edges and faces keep their own directions
Iso(tag,a,b,w,strict) ==
  /\ Chk(tag,"both meshes readable",Readable(a) /\ Readable(b))
  /\ Chk(tag,"counts",Counts(b))
  /\ Chk(tag,"vertices correspond",BijFast(w.V,a.V,b.V))
  /\ Chk(tag,"edges correspond",BijFast(w.E,a.E,b.E))
  /\ Chk(tag,"faces correspond",BijFast(w.F,a.F,b.F))
  /\ Chk(tag,"regions correspond",BijFast(w.R,a.R,b.R))
  /\ Chk(tag,"coordinates",\A v \in DOMAIN a.V : b.V[w.V[v]] = a.V[v])
  /\ Chk(tag,"edge ends",\A e \in DOMAIN a.E : LET x == b.E[w.E[e]] y == <<w.V[a.E[e][1]],w.V[a.E[e][2]]>> IN
           IF strict THEN x = y ELSE Range(x) = Range(y))
  /\ \A sense \in {FaceSense(a,b,w)} : \A rm \in {RegMap(a,w,sense)} :
     /\ Chk(tag,"face cycles",\A f \in DOMAIN a.F : IF strict THEN sense[f] = 1 ELSE sense[f] # 2)
     /\ Chk(tag,"region shells",\A r \in DOMAIN a.R : Range(b.R[w.R[r]]) = rm[r] /\ Len(b.R[w.R[r]]) = Len(a.R[r]))
ClsK(a,b,m) == \A u \in DOMAIN a : b[m[u]] = a[u]
SameCls(tag,a,b,w) == Chk(tag,"classification",ClsK(a.CV,b.CV,w.V) /\ ClsK(a.CE,b.CE,w.E) /\ ClsK(a.CF,b.CF,w.F) /\ ClsK(a.CR,b.CR,w.R))
SameIds(tag,a,b,w) == Chk(tag,"local identifiers",ClsK(a.IV,b.IV,w.V) /\ ClsK(a.IE,b.IE,w.E) /\ ClsK(a.IF,b.IF,w.F) /\ ClsK(a.IR,b.IR,w.R))
SameGids(tag,a,b,w) == Chk(tag,"global identifiers",ClsK(a.GV,b.GV,w.V) /\ ClsK(a.GE,b.GE,w.E) /\ ClsK(a.GF,b.GF,w.F) /\ ClsK(a.GR,b.GR,w.R))
Unique(I) == Cardinality(Range(I)) = Len(I) /\ \A i \in DOMAIN I : I[i] > 0
IdsOK(tag,b) == Chk(tag,"identifiers unique",Unique(b.IV) /\ Unique(b.IE) /\ Unique(b.IF) /\ Unique(b.IR))
\* lookup by identifier
LookOK(tag,b,look) == Chk(tag,"lookup by identifier",
    LET I == <<b.IV,b.IE,b.IF,b.IR>> IN \A k \in 1..4 : \A j \in DOMAIN look[k] :
       LET i == look[k][j][1] p == look[k][j][2] IN
       IF p = 0 THEN \A u \in DOMAIN I[k] : I[k][u] # i ELSE p \in DOMAIN I[k] /\ I[k][p] = i)
W(w) == <<w.V,w.E,w.F,w.R>>
\* values: 'at' lists, per attribute, the entities that hold something
Zero(v) == \A i \in DOMAIN v : v[i] \in {"0","0.0","-0.0"}
Vals(at,keepz) == {<<x[1],x[2],x[3]>> : x \in {y \in Range(at.v) : keepz \/ ~Zero(y[3])}}
MapVals(at,w,keepz) == {<<x[1],W(w)[x[1]+1][x[2]],x[3]>> : x \in Vals(at,keepz)}
Copyable(at) == at.t # 2
SameAtts(tag,a,b,w,keepz) ==
  /\ Chk(tag,"attributes present",\A i \in DOMAIN a.at : LET x == a.at[i] IN Copyable(x) /\ Vals(x,keepz) # {} =>
         \E j \in DOMAIN b.at : b.at[j].n = x.n)
  /\ Chk(tag,"attributes only from the source",\A j \in DOMAIN b.at : \E i \in DOMAIN a.at : a.at[i].n = b.at[j].n)
  /\ Chk(tag,"attribute names unique",Cardinality({a.at[j].n : j \in DOMAIN a.at}) = Len(a.at) => Cardinality({b.at[j].n : j \in DOMAIN b.at}) = Len(b.at))
  /\ Chk(tag,"attribute kinds",\A j \in DOMAIN b.at : \A i \in DOMAIN a.at : a.at[i].n = b.at[j].n =>
         /\ a.at[i].t = b.at[j].t /\ a.at[i].d = b.at[j].d /\ (a.at[i].t \in {3,4} => a.at[i].c = b.at[j].c))
  /\ Chk(tag,"attribute values",\A j \in DOMAIN b.at : \A i \in DOMAIN a.at : (a.at[i].n = b.at[j].n /\ Copyable(a.at[i])) =>
         Vals(b.at[j],keepz) = MapVals(a.at[i],w,keepz))
MapSet(e,w) == [i \in DOMAIN e |-> IF e[i][1] = 9 THEN e[i] ELSE <<e[i][1],W(w)[e[i][1]+1][e[i][2]]>>]
SameSets(tag,a,b,w) ==
  /\ Chk(tag,"sets",Len(a.st) = Len(b.st) /\ \A i \in DOMAIN a.st : \E j \in DOMAIN b.st :
        /\ b.st[j].n = a.st[i].n /\ b.st[j].d = a.st[i].d
        /\ Range(b.st[j].e) = Range(MapSet(a.st[i].e,w)) /\ Len(b.st[j].e) = Len(a.st[i].e))
Same(tag,name,x,y) == Chk(tag,name,x = y)

(* ----------------------------- orientation -------------------------------- *)
\* boundary of a region as vertex loops seen from outside
Loops(M,r) == {VSeq(DirCyc(M,p)) : p \in M.R[r]}
OLoops(M,r) == {VSeq(CanonCyc(DirCyc(M,p))) : p \in M.R[r]}
Sub3(a,b) == <<a[1]-b[1],a[2]-b[2],a[3]-b[3]>>
Det3(a,b,c) == a[1]*(b[2]*c[3]-b[3]*c[2]) - a[2]*(b[1]*c[3]-b[3]*c[1]) + a[3]*(b[1]*c[2]-b[2]*c[1])
\* six times the volume enclosed by a shell (integer coordinates)
LoopVol(M,c,o) == LET t == [i \in 2..(Len(c)-1) |-> Det3(Sub3(M.V[c[1]],o),Sub3(M.V[c[i]],o),Sub3(M.V[c[i+1]],o))]
                  IN SumSeq([i \in 1..(Len(c)-2) |-> t[i+1]])
RECURSIVE SumOver(_,_)
SumOver(f,S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f,S \ {x})
Vol6(M,r) == LET o == M.V[CHOOSE v \in RV(M,r) : TRUE]
                 f == TLCEval([p \in M.R[r] |-> LoopVol(M,VSeq(DirCyc(M,p)),o)]) IN SumOver(f,M.R[r])
\* twice the signed area of a face in the xy plane
Area2(M,f) == LET c == VSeq(M.F[f]) o == M.V[c[1]]
                  t == [i \in 1..(Len(c)-2) |-> LET a == Sub3(M.V[c[i+1]],o) b == Sub3(M.V[c[i+2]],o) IN a[1]*b[2]-a[2]*b[1]]
              IN SumSeq(t)

(* -------------------------- generated grids (C18) ------------------------- *)
\* a : n = cells per direction, l = lower corner, h = cell size (scaled integers); n[3] = 0 means a plane grid
Grid(a) == {<<i,j,k>> : i \in 0..a.n[1], j \in 0..a.n[2], k \in 0..a.n[3]}
PosOfV(M,a,v) == <<(M.V[v][1]-a.l[1]) \div a.h[1], (M.V[v][2]-a.l[2]) \div a.h[2], IF a.n[3] = 0 THEN 0 ELSE (M.V[v][3]-a.l[3]) \div a.h[3]>>
CoordAt(a,p) == <<a.l[1]+p[1]*a.h[1], a.l[2]+p[2]*a.h[2], IF a.n[3] = 0 THEN 0 ELSE a.l[3]+p[3]*a.h[3]>>
Axis1(a,P,d) == IF \A p \in P : p[d] = 0 THEN 0 ELSE IF \A p \in P : p[d] = a.n[d] THEN 2 ELSE 1
Id3 == <<<<<<1,4,5>>,<<9,6,12>>,<<3,8,7>>>>,<<<<1,1,3>>,<<3,1,4>>,<<5,2,7>>>>,<<<<2,2,6>>,<<10,5,11>>,<<4,6,8>>>>>>
Id2 == <<<<1,4,4>>,<<1,1,3>>,<<2,2,3>>>>
BoxCls(a,P) == LET x == Axis1(a,P,1) y == Axis1(a,P,2) z == Axis1(a,P,3)
                   one(t) == IF t = 1 THEN 1 ELSE 0 IN
               IF a.n[3] = 0 THEN <<one(x)+one(y), Id2[x+1][y+1]>> ELSE <<one(x)+one(y)+one(z), Id3[x+1][y+1][z+1]>>
SpanIs(P,dims) == LET ext(d) == Cardinality({p[d] : p \in P}) IN
                  (\A d \in 1..3 : MaxOf({p[d] : p \in P}) - MinOf({p[d] : p \in P}) <= 1) /\ Cardinality({d \in 1..3 : ext(d) = 2}) = dims
GridOK(tag,b,a) == \A M \in {Full(b)} : \A pos \in {[v \in DOMAIN b.V |-> PosOfV(M,a,v)]} :
  LET P(S) == {pos[v] : v \in S}
      two == a.n[3] = 0
      nx == a.n[1] ny == a.n[2] nz == a.n[3] IN
  /\ Chk(tag,"grid points",{<<b.V[v][1],b.V[v][2],b.V[v][3]>> : v \in DOMAIN b.V} = {CoordAt(a,p) : p \in Grid(a)} /\ Len(b.V) = Cardinality(Grid(a)))
  /\ Chk(tag,"counts",Counts(b))
  /\ Chk(tag,"conforming",Conforming(M))
  /\ Chk(tag,"edges join neighbouring points",\A e \in DOMAIN b.E : SpanIs(P(M.E[e]),1))
  /\ Chk(tag,"faces are unit squares",\A f \in DOMAIN b.F : Len(M.F[f]) = 4 /\ SpanIs(P(FV(M,f)),2) /\ Cardinality(FV(M,f)) = 4)
  /\ IF two
     THEN /\ Chk(tag,"all cells",Len(b.F) = nx*ny /\ Len(b.R) = 0 /\ Cardinality({P(FV(M,f)) : f \in DOMAIN b.F}) = nx*ny)
          /\ Chk(tag,"all edges",Len(b.E) = nx*(ny+1)+ny*(nx+1))
          /\ Chk(tag,"faces face upwards",\A f \in DOMAIN b.F : Area2(M,f) = 2*a.h[1]*a.h[2])
     ELSE /\ Chk(tag,"all cells",Len(b.R) = nx*ny*nz /\ Cardinality({P(RV(M,r)) : r \in DOMAIN b.R}) = nx*ny*nz)
          /\ Chk(tag,"cells are boxes",\A r \in DOMAIN b.R : Cardinality(RV(M,r)) = 8 /\ Cardinality(M.R[r]) = 6 /\ SpanIs(P(RV(M,r)),3))
          /\ Chk(tag,"cells face outwards",\A r \in DOMAIN b.R : Vol6(M,r) = 6*a.h[1]*a.h[2]*a.h[3])
          /\ Chk(tag,"all edges",Len(b.E) = nx*(ny+1)*(nz+1)+ny*(nx+1)*(nz+1)+nz*(nx+1)*(ny+1))
          /\ Chk(tag,"all faces",Len(b.F) = nx*ny*(nz+1)+ny*nz*(nx+1)+nx*nz*(ny+1))
  /\ Chk(tag,"vertex classification",\A v \in DOMAIN b.V : b.CV[v] = BoxCls(a,{pos[v]}))
  /\ Chk(tag,"edge classification",\A e \in DOMAIN b.E : b.CE[e] = BoxCls(a,P(M.E[e])))
  /\ Chk(tag,"face classification",\A f \in DOMAIN b.F : b.CF[f] = BoxCls(a,P(FV(M,f))))
  /\ Chk(tag,"region classification",\A r \in DOMAIN b.R : b.CR[r] = <<3,1>>)
\* a mesh described by points and elements (vertex lists, numbered from 1)
Tmpl == [n \in {4,5,6,8} |-> CASE n = 4 -> {<<1,3,2>>,<<1,2,4>>,<<2,3,4>>,<<1,4,3>>}
   [] n = 5 -> {<<1,4,3,2>>,<<1,2,5>>,<<2,3,5>>,<<3,4,5>>,<<4,1,5>>}
   [] n = 6 -> {<<1,3,2>>,<<4,5,6>>,<<1,2,5,4>>,<<2,3,6,5>>,<<3,1,4,6>>}
   [] n = 8 -> {<<1,4,3,2>>,<<5,6,7,8>>,<<1,2,6,5>>,<<2,3,7,6>>,<<3,4,8,7>>,<<4,1,5,8>>}]
RotMin(s) == LET k == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[i] <= s[j] IN Rot(s,k)
TmplLoops(vs) == {RotMin([i \in DOMAIN t |-> vs[t[i]]]) : t \in Tmpl[Len(vs)]}
RegLoops(M,r) == {RotMin(VSeq(DirCyc(M,p))) : p \in M.R[r]}
PairsOf(s) == {{s[i],s[(i % Len(s))+1]} : i \in DOMAIN s}
DescOK(tag,b,a) == \A M \in {Full(b)} :
  /\ Chk(tag,"listed points",b.V = a.xyz)
  /\ Chk(tag,"counts",Counts(b))
  /\ Chk(tag,"well formed",EdgesOK(M) /\ FacesOK(M) /\ RegionsOK(M) /\ NoTwinEdges(M) /\ (a.dim = 3 => NoTwinFaces(M) /\ Closed(M) /\ SidesOK(M)))
  /\ Chk(tag,"numbered as listed",b.IV = [i \in DOMAIN b.V |-> i] /\ IF a.dim = 2 THEN b.IF = [i \in DOMAIN b.F |-> i] ELSE b.IR = [i \in DOMAIN b.R |-> i])
  /\ IF a.dim = 2
     THEN /\ Chk(tag,"listed faces",Len(b.F) = Len(a.els) /\ Len(b.R) = 0 /\ \A i \in DOMAIN a.els : RotMin(VSeq(M.F[i])) = RotMin(a.els[i]))
          /\ Chk(tag,"edges of the faces",{M.E[e] : e \in DOMAIN b.E} = UNION {PairsOf(a.els[i]) : i \in DOMAIN a.els})
     ELSE /\ Chk(tag,"listed regions",Len(b.R) = Len(a.els) /\ \A i \in DOMAIN a.els : RegLoops(M,i) = TmplLoops(a.els[i]))
          /\ Chk(tag,"faces of the regions",{FV(M,f) : f \in DOMAIN b.F} = UNION {{Range(t) : t \in TmplLoops(a.els[i])} : i \in DOMAIN a.els})
          /\ Chk(tag,"edges of the regions",{M.E[e] : e \in DOMAIN b.E} = UNION {UNION {PairsOf(t) : t \in TmplLoops(a.els[i])} : i \in DOMAIN a.els})

(* ----------------------------- graphs (C20) ------------------------------- *)
SameBag(s,t) == Len(s) = Len(t) /\ \A x \in Range(s) \cup Range(t) : Cardinality({i \in DOMAIN s : s[i] = x}) = Cardinality({i \in DOMAIN t : t[i] = x})
\* row per element: how often each other element occurs in it
CountIn(s,x) == Cardinality({i \in DOMAIN s : s[i] = x})
GraphOK(tag,b,g) == \A M \in {Full(b)} :
  LET three == Len(b.R) > 0
      T == IF three THEN b.IR ELSE b.IF IN
  \A Dn \in {IF three THEN [f \in LR(M) |-> RF(M,f)] ELSE [f \in LF(M) |-> FE(M,f)]} :       \* sides of each element
  \A Up \in {IF three THEN [f \in LF(M) |-> {r \in LR(M) : f \in Dn[r]}] ELSE [e \in LE(M) |-> {f \in LF(M) : e \in Dn[f]}]} :
  \A Nb \in {[x \in DOMAIN T |-> UNION {Up[z] : z \in Dn[x]} \ {x}]} :
  /\ Chk(tag,"one row per element",Len(g) = Len(T))
  /\ Chk(tag,"rows list the neighbours once per shared side",\A x \in DOMAIN T :
        /\ Range(g[x]) = {T[y]-1 : y \in Nb[x]}
        /\ \A y \in Nb[x] : CountIn(g[x],T[y]-1) = Cardinality(Dn[x] \cap Dn[y]))
  /\ Chk(tag,"symmetric",\A x \in DOMAIN g : \A y \in Range(g[x]) : y+1 \in DOMAIN g /\ CountIn(g[x],y) = CountIn(g[y+1],x-1))

(* --------------------------- renumbering (C21) ---------------------------- *)
Ids(s,k) == <<s.IV,s.IE,s.IF,s.IR>>[k+1]
PermIds(I) == Range(I) = 1..Len(I)
RenumOK(tag,a,b,typ,kind,look) ==
  \A k \in 0..3 : IF kind \in {k,5}
     THEN /\ Chk(tag,"identifiers are a permutation of 1..n",PermIds(Ids(b,k)))
          /\ (typ = 0 => Chk(tag,"sequential order",Ids(b,k) = [i \in DOMAIN Ids(b,k) |-> i]))
     ELSE Chk(tag,"other identifiers unchanged",Ids(b,k) = Ids(a,k))
WithoutAtt(s,n) == [s EXCEPT !.at = SelectSeq(s.at,LAMBDA x : x.n # n)]
SameVals(tag,a,b,w) == Chk(tag,"attributes unchanged",
   LET x == WithoutAtt(a,"vidrcm").at y == WithoutAtt(b,"vidrcm").at IN
   Len(x) = Len(y) /\ \A i \in DOMAIN x : x[i].n = y[i].n /\ x[i].t = y[i].t /\ x[i].d = y[i].d /\ x[i].c = y[i].c /\ Vals(y[i],TRUE) = MapVals(x[i],w,TRUE))

(* --------------------------- conversions (C22) ---------------------------- *)
Mean(S,V) == LET n == Cardinality(S) f(d) == [v \in S |-> V[v][d]] IN
             <<SumOver(f(1),S) \div n, SumOver(f(2),S) \div n, SumOver(f(3),S) \div n>>
\* w.V, w.E, w.F, w.R : the vertex of b that stands for each vertex, edge, face, region of a
ConvVerts(tag,A_,a,b,w,three) ==
  LET all == w.V \o w.E \o w.F \o (IF three THEN w.R ELSE <<>>) IN
  /\ Chk(tag,"new vertices",Len(w.V) = Len(a.V) /\ Len(w.E) = Len(a.E) /\ Len(w.F) = Len(a.F)
        /\ (three => Len(w.R) = Len(a.R)) /\ Len(all) = Len(b.V) /\ Range(all) = DOMAIN b.V)
  /\ Chk(tag,"positions of new vertices",
        /\ \A v \in DOMAIN a.V : b.V[w.V[v]] = a.V[v]
        /\ \A e \in DOMAIN a.E : b.V[w.E[e]] = Mean(A_.E[e],a.V)
        /\ \A f \in DOMAIN a.F : b.V[w.F[f]] = Mean(FV(A_,f),a.V)
        /\ three => \A r \in DOMAIN a.R : b.V[w.R[r]] = Mean(RV(A_,r),a.V))
  /\ Chk(tag,"classification of new vertices",
        /\ \A v \in DOMAIN a.V : b.CV[w.V[v]] = a.CV[v]
        /\ \A e \in DOMAIN a.E : b.CV[w.E[e]] = a.CE[e]
        /\ \A f \in DOMAIN a.F : b.CV[w.F[f]] = a.CF[f]
        /\ three => \A r \in DOMAIN a.R : b.CV[w.R[r]] = a.CR[r])
NoStray(tag,M) == Chk(tag,"no stray entities",
      /\ UNION {FE(M,f) : f \in LF(M)} = LE(M)
      /\ LR(M) # {} => UNION {RF(M,r) : r \in LR(M)} = LF(M))
Tri2QuadOK(tag,a,b,w) == \A A_ \in {Full(a)} : \A M \in {Full(b)} :
  LET quad(f,i) == LET c == A_.F[f] n == Len(c) IN <<w.V[c[i][1]], w.E[c[i][2]], w.F[f], w.E[c[((i+n-2) % n)+1][2]]>>
      want == {<<RotMin(quad(f,i)),a.CF[f]>> : f \in DOMAIN a.F, i \in 1..3} IN
  /\ ConvVerts(tag,A_,a,b,w,FALSE)
  /\ Chk(tag,"counts",Counts(b) /\ Len(b.F) = 3*Len(a.F) /\ Len(b.R) = 0)
  /\ Chk(tag,"well formed",WF(M) /\ NoTwinEdges(M) /\ NoTwinFaces(M))
  /\ Chk(tag,"quadrilaterals",{<<RotMin(VSeq(M.F[f])),b.CF[f]>> : f \in DOMAIN b.F} = want)
  /\ NoStray(tag,M) /\ IdsOK(tag,b)
Tet2HexOK(tag,a,b,w) == \A A_ \in {Full(a)} : \A M \in {Full(b)} : \A D \in {Derive(A_)} :
  LET es(r,v) == {e \in D.RE[r] : v \in A_.E[e]}
      fs(r,v) == {f \in D.RF[r] : v \in D.FV[f]}
      hexv(r,v) == {w.V[v],w.R[r]} \cup {w.E[e] : e \in es(r,v)} \cup {w.F[f] : f \in fs(r,v)}
      hexf(r,v) == {{w.V[v],w.F[f]} \cup {w.E[e] : e \in es(r,v) \cap D.FE[f]} : f \in fs(r,v)}
               \cup {{w.R[r],w.E[e]} \cup {w.F[f] : f \in fs(r,v) \cap D.EF[e]} : e \in es(r,v)}
      want == UNION {{<<hexf(r,v),a.CR[r],Vol6(A_,r)>> : v \in D.RV[r]} : r \in DOMAIN a.R} IN
  /\ ConvVerts(tag,A_,a,b,w,TRUE)
  /\ Chk(tag,"counts",Counts(b) /\ Len(b.R) = 4*Len(a.R))
  /\ Chk(tag,"well formed",Conforming(M))
  /\ Chk(tag,"hexahedra",{<<{FV(M,f) : f \in RF(M,r)},b.CR[r],4*Vol6(M,r)>> : r \in DOMAIN b.R} = want)
  /\ NoStray(tag,M) /\ IdsOK(tag,b)
\* the graph read from a file, with the centres of the elements
RECURSIVE SumC(_,_,_)
SumC(b,vs,d) == IF vs = {} THEN 0 ELSE LET v == CHOOSE v \in vs : TRUE IN b.V[v][d] + SumC(b,vs \ {v},d)
Near(x,y,t) == x - y <= t /\ y - x <= t
FvSet(b,f) == UNION {Range(b.E[b.F[f][i][1]]) : i \in DOMAIN b.F[f]}
CentersOK(tag,b,cen) ==
  LET el == IF Len(b.R) > 0 THEN [r \in DOMAIN b.R |-> UNION {FvSet(b,b.R[r][i][1]) : i \in DOMAIN b.R[r]}] ELSE [f \in DOMAIN b.F |-> FvSet(b,f)] IN
  Chk(tag,"element centres",Len(cen) = Len(el) /\ \A VS \in {el} : \A x \in DOMAIN VS : \A d \in 1..3 :
        Near(Cardinality(VS[x])*cen[x][d],SumC(b,VS[x],d),2*Cardinality(VS[x])))
\* removing the interior: w maps survivors, 0 = gone
DelIntOK(tag,a,b,w) ==
  LET dim == IF Len(a.R) > 0 THEN 3 ELSE IF Len(a.F) > 0 THEN 2 ELSE 1
      keep(c) == {u \in DOMAIN c : c[u][1] # dim}
      kept(m) == {u \in DOMAIN m : m[u] # 0}
      M == Full(b) IN
  /\ Chk(tag,"regions gone",dim = 3 => Len(b.R) = 0)
  /\ Chk(tag,"boundary entities stay, others go",kept(w.V) = keep(a.CV) /\ kept(w.E) = keep(a.CE) /\ kept(w.F) = keep(a.CF))
  /\ Chk(tag,"counts",Counts(b) /\ Len(b.V) = Cardinality(keep(a.CV)) /\ Len(b.E) = Cardinality(keep(a.CE)) /\ Len(b.F) = Cardinality(keep(a.CF)))
  /\ Chk(tag,"survivors unchanged",
       /\ \A v \in keep(a.CV) : b.V[w.V[v]] = a.V[v] /\ b.CV[w.V[v]] = a.CV[v] /\ b.IV[w.V[v]] = a.IV[v]
       /\ \A e \in keep(a.CE) : b.E[w.E[e]] = [i \in 1..2 |-> w.V[a.E[e][i]]] /\ b.CE[w.E[e]] = a.CE[e] /\ b.IE[w.E[e]] = a.IE[e]
       /\ \A f \in keep(a.CF) : CanonCyc(MapC(RawCyc(a.E,a.F[f]),w)) = M.F[w.F[f]] /\ b.CF[w.F[f]] = a.CF[f] /\ b.IF[w.F[f]] = a.IF[f])

(* ------------------------------ Exodus II (C16) --------------------------- *)
InSet(b,n) == UNION {Range(b.st[j].e) : j \in {j \in DOMAIN b.st : b.st[j].n = n}}
HasSet(b,n,d) == Cardinality({j \in DOMAIN b.st : b.st[j].n = n}) = 1 /\ \E j \in DOMAIN b.st : b.st[j].n = n /\ b.st[j].d = d
ExoSet(n,d,dim) == \E p \in {<<"nodeset_",0>>,<<"sideset_",dim-1>>,<<"elemset_",dim>>} : d = p[2] /\ \E i \in 1..999 : n = p[1] \o ToString(i)
ExoOK(tag,a,b,w,p) ==
  LET dim == p.dim
      ca == IF dim = 3 THEN a.CR ELSE a.CF
      cb == IF dim = 3 THEN b.CR ELSE b.CF
      we == IF dim = 3 THEN w.R ELSE w.F
      sc == IF dim = 3 THEN a.CF ELSE a.CE
      gs == {ca[x][2] : x \in DOMAIN ca}
      ss == IF p.geo = 0 THEN {} ELSE {sc[x][2] : x \in {y \in DOMAIN sc : IF dim = 3 THEN sc[y][1] # 3 ELSE sc[y][1] = 1}}
      ns == IF p.geo = 0 THEN {} ELSE {a.CV[x] : x \in {y \in DOMAIN a.CV : a.CV[y][1] < 2}} IN
  /\ Iso(tag,a,b,w,FALSE)
  /\ (dim = 2 => Chk(tag,"element loops",\A s \in {FaceSense(a,b,w)} : \A f \in DOMAIN a.F : s[f] = 1))
  /\ Chk(tag,"element classification",\A x \in DOMAIN ca : cb[we[x]] = <<dim,ca[x][2]>>)
  /\ Chk(tag,"blocks",\A g \in gs : HasSet(b,"matset_" \o ToString(g),dim) /\ InSet(b,"matset_" \o ToString(g)) = {<<dim,we[x]>> : x \in {y \in DOMAIN ca : ca[y][2] = g}})
  /\ Chk(tag,"sets kept",\A i \in DOMAIN a.st : HasSet(b,a.st[i].n,a.st[i].d) /\ InSet(b,a.st[i].n) = Range(MapSet(a.st[i].e,w)))
  /\ Chk(tag,"side sets by model entity",\A g \in ss : LET n == "sideset_" \o ToString(g) IN
       HasSet(b,n,dim-1) /\ InSet(b,n) = {<<dim-1,(IF dim = 3 THEN w.F ELSE w.E)[x]>> : x \in {y \in DOMAIN sc : sc[y][2] = g /\ IF dim = 3 THEN sc[y][1] # 3 ELSE sc[y][1] = 1}})
  /\ Chk(tag,"node sets by model entity",\A g \in ns : LET n == "nodeset_" \o ToString(g[1]*10000+g[2]) IN
       HasSet(b,n,0) /\ InSet(b,n) = {<<0,w.V[x]>> : x \in {y \in DOMAIN a.CV : a.CV[y] = g}})
  /\ Chk(tag,"no other sets",Len(b.st) = Cardinality(gs) + Len(a.st) + Cardinality(ss) + Cardinality(ns) + Cardinality({j \in DOMAIN b.st : b.st[j].n = "faceset"}))
  /\ Chk(tag,"variables",\A i \in DOMAIN a.at : a.at[i].t \in {1,3,4} /\ a.at[i].d \in {0,dim} =>
       \E j \in DOMAIN b.at : b.at[j].n = a.at[i].n /\ b.at[j].d = a.at[i].d /\ (b.at[j].t = 1 <=> a.at[i].t = 1)
            /\ (a.at[i].t # 1 => b.at[j].c = a.at[i].c) /\ Vals(b.at[j],FALSE) = MapVals(a.at[i],w,FALSE))

(* ---------------------------- GMV, STL, OFF (C17) ------------------------- *)
AttOf(b,n,d) == {j \in DOMAIN b.at : b.at[j].n = n /\ b.at[j].d = d}
NumStr(t,v) == IF t = 0 THEN v \o ".0" ELSE v
GmvOK(tag,a,b,w,p) ==
  LET dim == p.dim
      ca == IF dim = 3 THEN a.CR ELSE a.CF
      cb == IF dim = 3 THEN b.CR ELSE b.CF
      we == IF dim = 3 THEN w.R ELSE w.F
      on(x,d) == {<<d,W(w)[d+1][y[2]],<<NumStr(x.t,y[3][1])>>>> : y \in {z \in Range(x.v) : z[1] = d /\ ~Zero(z[3])}} IN
  /\ Iso(tag,a,b,w,FALSE)
  /\ (dim = 2 => Chk(tag,"element loops",\A s \in {FaceSense(a,b,w)} : \A f \in DOMAIN a.F : s[f] = 1))
  /\ Chk(tag,"materials",LET pr == {<<ca[x][2],cb[we[x]][2]>> : x \in DOMAIN ca} IN
        /\ Cardinality(pr) = Cardinality({q[1] : q \in pr}) /\ Cardinality(pr) = Cardinality({q[2] : q \in pr})
        /\ \A x \in DOMAIN cb : cb[x][1] = dim)
  /\ Chk(tag,"vertex classification dimension",\A v \in DOMAIN a.CV : b.CV[w.V[v]][1] = a.CV[v][1])
  /\ Chk(tag,"element colours",\E j \in AttOf(b,"itetclr",dim) : Vals(b.at[j],FALSE) =
        {<<dim,we[x],<<ToString(ca[x][2]) \o ".0">>>> : x \in {y \in DOMAIN ca : ca[y][2] # 0}})
  /\ Chk(tag,"attributes",\A i \in DOMAIN a.at : LET x == a.at[i] IN (x.t \in {0,1} /\ x.n \in Range(p.want)) =>
        \A d \in (IF x.d = 5 THEN {0,dim} ELSE {x.d}) : \E j \in AttOf(b,x.n,d) : b.at[j].t = 1 /\ Vals(b.at[j],FALSE) = on(x,d))
  /\ Chk(tag,"only the attributes asked for",\A j \in DOMAIN b.at : \A i \in DOMAIN a.at : b.at[j].n = a.at[i].n => a.at[i].n \in Range(p.want))
OffOK(tag,a,p) ==
  /\ Chk(tag,"file well formed",p.bad = 0)
  /\ Chk(tag,"points",p.V = a.V)
  /\ Chk(tag,"faces",Len(p.f) = Len(a.F) /\ \A f \in DOMAIN a.F : RotMin([i \in DOMAIN p.f[f] |-> p.f[f][i]+1]) = RotMin(VSeq(RawCyc(a.E,a.F[f]))))
Cross3(u,v) == <<u[2]*v[3]-u[3]*v[2],u[3]*v[1]-u[1]*v[3],u[1]*v[2]-u[2]*v[1]>>
Mag(x) == IF x < 0 THEN -x ELSE x
Dot3(u,v) == u[1]*v[1]+u[2]*v[2]+u[3]*v[3]
StlOK(tag,a,p) ==
  /\ Chk(tag,"file well formed",p.bad = 0)
  /\ Chk(tag,"facets",Len(p.f) = Len(a.F) /\ \A f \in DOMAIN a.F : LET c == VSeq(RawCyc(a.E,a.F[f])) IN
        Len(c) = 3 /\ \E k \in 1..3 : \A i \in 1..3 : p.f[f].p[i] = a.V[Rot(c,k)[i]])
  \* unit normal along the right-handed normal of the corners
  /\ Chk(tag,"normals",\A f \in DOMAIN p.f : LET q == p.f[f].q n == p.f[f].n c == Cross3(Sub3(q[2],q[1]),Sub3(q[3],q[1])) IN
        c # <<0,0,0>> => /\ Mag(Dot3(n,n) - 1000000) <= 4000
                         /\ \E i \in 1..3 : Mag(c[i]) >= Mag(c[1]) /\ Mag(c[i]) >= Mag(c[2]) /\ Mag(c[i]) >= Mag(c[3]) /\ (n[i] > 0) = (c[i] > 0)
                             /\ \A j \in 1..3 : Mag((c[i] \div 64)*n[j] - (c[j] \div 64)*n[i]) <= 4*Mag(c[i] \div 64) + 3000)

(* -------------------------------- steps ----------------------------------- *)
Go(x) == A' = x.A /\ B' = x.B
Step(x) ==
  LET a == x.a IN
  CASE x.op = "init" -> Chk("base","source readable",Readable(x.A)) /\ Go(x)
    [] x.op = "copy" ->
        /\ Chk("copy","reports success",x.r = 1)
        /\ Same("copy","source unchanged",x.A,A)
        /\ Iso("copy",A,x.B,x.w,TRUE) /\ SameCls("copy",A,x.B,x.w) /\ SameIds("copy",A,x.B,x.w) /\ SameGids("copy",A,x.B,x.w)
        /\ LookOK("copy",x.B,x.look)
        /\ IF a.attr = 1 THEN SameAtts("copy",A,x.B,x.w,TRUE) ELSE Chk("copy","no attributes asked for",x.B.at = <<>>)
        /\ IF a.sets = 1 THEN SameSets("copy",A,x.B,x.w) ELSE Chk("copy","no sets asked for",x.B.st = <<>>)
        /\ Go(x)
    [] x.op = "editA" -> Same("copy","copy independent of the source",x.B,B) /\ Go(x)
    [] x.op = "editB" -> /\ Same("copy","source independent of the copy",x.A,A)
                         /\ (Has(x,"look") => IdsOK("copy",x.B) /\ LookOK("copy",x.B,x.look))
                         /\ Go(x)
    [] x.op = "write" -> Chk("io","reports success",x.r = 1) /\ Same("io","source unchanged",x.A,A) /\ Go(x)
    [] x.op = "read" ->
        /\ Chk("io","reports success",x.r = 1)
        /\ Same("io","source unchanged",x.A,A)
        /\ Iso("io",A,x.B,x.w,TRUE) /\ SameCls("io",A,x.B,x.w)
        /\ IdsOK("io",x.B) /\ LookOK("io",x.B,x.look)
        /\ SameAtts("io",A,x.B,x.w,TRUE)
        /\ Go(x)
    [] x.op = "exoread" -> Chk("exo","reports success",x.r = 1) /\ Same("exo","source unchanged",x.A,A) /\ ExoOK("exo",A,x.B,x.w,x.a) /\ IdsOK("exo",x.B) /\ LookOK("exo",x.B,x.look) /\ Go(x)
    [] x.op = "gwrite" -> Chk("files","reports success",x.r = 1) /\ Same("files","source unchanged",x.A,A) /\ Go(x)
    [] x.op = "gmvread" -> Chk("files","reports success",x.r = 1) /\ Same("files","source unchanged",x.A,A) /\ GmvOK("files",A,x.B,x.w,a) /\ IdsOK("files",x.B) /\ LookOK("files",x.B,x.look) /\ Go(x)
    [] x.op = "off" -> Chk("files","reports success",x.r = 1) /\ Same("files","source unchanged",x.A,A) /\ OffOK("files",A,a) /\ Go(x)
    [] x.op = "stl" -> Chk("files","reports success",x.r = 1) /\ Same("files","source unchanged",x.A,A) /\ StlOK("files",A,a) /\ Go(x)
    [] x.op = "gen" -> Chk("gen","reports success",x.r = 1) /\ Chk("gen","mesh readable",Readable(x.B)) /\ GridOK("gen",x.B,x.a) /\ IdsOK("gen",x.B) /\ LookOK("gen",x.B,x.look) /\ Go(x)
    [] x.op = "gendesc" -> Chk("gen","reports success",x.r = 1) /\ Chk("gen","mesh readable",Readable(x.B)) /\ DescOK("gen",x.B,x.a) /\ LookOK("gen",x.B,x.look) /\ Go(x)
    [] x.op = "graph" -> Chk("graph","reports success",x.r = 1) /\ Same("graph","mesh unchanged",x.A,A) /\ GraphOK("graph",A,x.a.g) /\ Go(x)
    [] x.op = "exograph" -> /\ Chk("graph","reports success",x.r = 1) /\ Same("graph","mesh unchanged",x.A,A) /\ GraphOK("graph",A,x.a.g)
                            /\ Chk("graph","dimension",x.a.nd = IF Len(A.R) > 0 THEN 3 ELSE IF \A v \in DOMAIN A.V : A.V[v][3] = 0 THEN 2 ELSE x.a.nd)
                            /\ (x.a.getc = 1 => CentersOK("graph",A,x.a.cen)) /\ Go(x)
    [] x.op = "renum" ->
        /\ Iso("renumx",A,x.B,x.w,TRUE) /\ SameCls("renumx",A,x.B,x.w) /\ SameVals("renumx",A,x.B,x.w) /\ SameSets("renumx",A,x.B,x.w)
        /\ RenumOK("renumx",A,x.B,x.a.type,x.a.kind,x.look) /\ LookOK("renumx",x.B,x.look) /\ A' = x.B /\ B' = B
    [] x.op = "edit" -> Chk("renumx","identifiers unique after later edits",Unique(x.A.IV) /\ Unique(x.A.IE) /\ Unique(x.A.IF) /\ Unique(x.A.IR)) /\ Go(x)
    [] x.op = "tri2quad" -> Chk("conv","reports success",x.r = 1) /\ Same("conv","source unchanged",x.A,A) /\ Chk("conv","mesh readable",Readable(x.B)) /\ Tri2QuadOK("conv",A,x.B,x.w) /\ LookOK("conv",x.B,x.look) /\ Go(x)
    [] x.op = "tet2hex" -> Chk("conv","reports success",x.r = 1) /\ Same("conv","source unchanged",x.A,A) /\ Chk("conv","mesh readable",Readable(x.B)) /\ Tet2HexOK("conv",A,x.B,x.w) /\ LookOK("conv",x.B,x.look) /\ Go(x)
    [] x.op = "delint" -> Chk("conv","reports success",x.r = 1) /\ Chk("conv","mesh readable",Readable(x.B)) /\ DelIntOK("conv",A,x.B,x.w) /\ LookOK("conv",x.B,x.look) /\ Go(x)
    [] OTHER -> FALSE
Init == l = 1 /\ A = <<>> /\ B = <<>>
Next == /\ l <= Len(Log)
        /\ Step(Log[l])
        /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
