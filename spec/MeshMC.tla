------------------------------- MODULE MeshMC --------------------------------
(* Exhaustive exploration of the editing actions of MeshOps from small meshes. *)
(* TLC visits every mesh reachable in at most Depth edits (equal meshes, seen  *)
(* through View, once), checks the invariants in each, and prints every        *)
(* transition as a path  <<"PATH", json>>  that the harness executes on the    *)
(* real library; what the library does is then checked by MeshTrace.           *)
(* Entities are named in paths by their vertices, so a path does not depend on *)
(* how either side numbers edges, faces and regions.                           *)
EXTENDS MeshOps, Json
CONSTANTS Starts,    \* indices of start meshes
          Depth,     \* longest path
          Ops,       \* names of the actions used
          Emit       \* 1: print the paths
VARIABLES M, st, hist
vars == <<M, st, hist>>

(* ------------------------------ start meshes ------------------------------ *)
\* a start: number of vertices, faces as vertex cycles, regions as <<face index, direction>> uses
Tet(a,b,c,d) == << <<a,c,b>>, <<a,b,d>>, <<b,c,d>>, <<c,a,d>> >>
Hex == << <<1,4,3,2>>, <<5,6,7,8>>, <<1,2,6,5>>, <<2,3,7,6>>, <<3,4,8,7>>, <<4,1,5,8>> >>
Out(n) == {<<i,1>> : i \in 1..n}
Meshes == <<
  (*1*) [n |-> 4, f |-> << <<1,2,3>>, <<1,3,4>> >>, r |-> <<>>],                                  \* two triangles
  (*2*) [n |-> 6, f |-> << <<1,2,5,4>>, <<2,3,6,5>> >>, r |-> <<>>],                              \* two quads
  (*3*) [n |-> 5, f |-> << <<1,2,5>>, <<2,3,5>>, <<3,4,5>>, <<4,1,5>> >>, r |-> <<>>],            \* fan
  (*4*) [n |-> 5, f |-> << <<1,2,4,3>>, <<2,5,4>> >>, r |-> <<>>],                                \* quad and triangle
  (*5*) [n |-> 4, f |-> Tet(1,2,3,4), r |-> << Out(4) >>],                                        \* one tet
  (*6*) [n |-> 5, f |-> Tet(1,2,3,4) \o << <<1,2,5>>, <<2,3,5>>, <<3,1,5>> >>,
         r |-> << Out(4), {<<1,0>>,<<5,0>>,<<6,0>>,<<7,0>>} >>],                                  \* two tets sharing a face
  (*7*) [n |-> 8, f |-> Hex, r |-> << Out(6) >>],                                                 \* one hex
  (*8*) [n |-> 9, f |-> Hex \o << <<5,6,9>>, <<6,7,9>>, <<7,8,9>>, <<8,5,9>> >>,
         r |-> << Out(6), {<<2,0>>} \cup {<<i,1>> : i \in 7..10} >>],                             \* hex and pyramid
  (*9*) [n |-> 5, f |-> << <<1,2,3>>, <<1,2,4>>, <<2,1,5>> >>, r |-> <<>>],                       \* three triangles on an edge
  (*10*)[n |-> 6, f |-> << <<1,2,3>>, <<1,3,4>>, <<4,3,5>>, <<1,4,6>> >>, r |-> <<>>],            \* strip
  (*11*)[n |-> 6, f |-> << <<1,3,2>>, <<4,5,6>>, <<1,2,5,4>>, <<2,3,6,5>>, <<3,1,4,6>> >>, r |-> << Out(5) >>],   \* prism
  (*12*)[n |-> 6, f |-> << <<1,2,3>>, <<1,2,4>>, <<1,2,5>>, <<1,2,6>>, <<1,3,4>>, <<2,3,4>>, <<1,4,5>>, <<2,4,5>>, <<1,5,6>>, <<2,5,6>>, <<1,6,3>>, <<2,6,3>> >>,
         r |-> << {<<1,0>>,<<2,1>>,<<5,0>>,<<6,1>>}, {<<2,0>>,<<3,1>>,<<7,0>>,<<8,1>>}, {<<3,0>>,<<4,1>>,<<9,0>>,<<10,1>>}, {<<4,0>>,<<1,1>>,<<11,0>>,<<12,1>>} >>], \* four tets around an edge
  (*13*)[n |-> 6, f |-> << <<1,2,3>>, <<4,5,6>> >>, r |-> <<>>],                                  \* two triangles apart
  (*14*)[n |-> 8, f |-> Tet(1,2,3,4) \o Tet(5,6,7,8), r |-> << Out(4), {<<i,1>> : i \in 5..8} >>]  \* two tets apart
 >>
Styles == {"flat","solid"}      \* classification: everything on the one model entity of full dimension, or boundary entities on the model boundary
Sides(c) == {{c[i], c[(i % Len(c))+1]} : i \in DOMAIN c}
Mesh0(k,style) ==
  LET g == Meshes[k]  nf == Len(g.f)  nr == Len(g.r)  D == IF nr > 0 THEN 3 ELSE 2
      es == TLCEval(SetToSeqAny(UNION {Sides(g.f[i]) : i \in 1..nf}))
      num(s) == CHOOSE i \in DOMAIN es : es[i] = s
      cyc == TLCEval([i \in 1..nf |-> CanonCyc([j \in DOMAIN g.f[i] |-> <<g.f[i][j], num({g.f[i][j], g.f[i][(j % Len(g.f[i]))+1]})>>])])
      bf == {i \in 1..nf : D = 3 /\ Cardinality({r \in 1..nr : \E p \in g.r[r] : p[1] = i}) < 2}
      be == IF D = 3 THEN {e \in DOMAIN es : \E i \in bf : e \in CycE(cyc[i])}
            ELSE {e \in DOMAIN es : Cardinality({i \in 1..nf : e \in CycE(cyc[i])}) # 2}
      bv == UNION {es[e] : e \in be}
      c(in,dim) == IF style = "flat" THEN <<dim,1>> ELSE IF in THEN <<D-1,1>> ELSE <<D,1>>
  IN [V |-> [v \in 1..g.n |-> <<0>>], E |-> es, F |-> cyc, R |-> [r \in 1..nr |-> g.r[r]],
      CV |-> [v \in 1..g.n |-> IF style = "solid" /\ v = 1 THEN <<0,1>> ELSE c(v \in bv,D)],
      CE |-> [e \in DOMAIN es |-> c(e \in be,D)],
      CF |-> [f \in 1..nf |-> IF D = 2 THEN <<2,1>> ELSE c(f \in bf,D)],
      CR |-> [r \in 1..nr |-> <<3,1>>],
      X |-> [V |-> [v \in 1..g.n |-> 1], E |-> [e \in DOMAIN es |-> 1], F |-> [f \in 1..nf |-> 1], R |-> [r \in 1..nr |-> 1]],
      I |-> [V |-> <<>>, E |-> <<>>, F |-> <<>>, R |-> <<>>]]

(* --------------------------- naming by vertices --------------------------- *)
RECURSIVE SortInts(_)
SortInts(S) == IF S = {} THEN <<>> ELSE <<MinOf(S)>> \o SortInts(S \ {MinOf(S)})
VSet(S) == SortInts(S)
Cyc(f) == VSeq(M.F[f])
Reg(r) == VSet(RV(M,r))
\* the mesh up to the numbering of edges, faces and regions
View == <<st, M.X.V, M.CV,
          {<<M.E[e],M.CE[e],M.X.E[e]>> : e \in Present(M.X.E)},
          {<<VSeq(M.F[f]),M.CF[f],M.X.F[f]>> : f \in Present(M.X.F)},
          {<<{<<VSeq(M.F[p[1]]),p[2]>> : p \in M.R[r]},M.CR[r],M.X.R[r]>> : r \in Present(M.X.R)}>>
NE == Len(M.E)  NF == Len(M.F)  NV == Len(M.V)  NR == Len(M.R)
AnyKept == \E k \in {"V","E","F","R"} : Kept(M.X[k]) # {}
TwinF(f) == \E g \in LF(M) : g # f /\ FV(M,g) = FV(M,f)

(* -------------------------------- actions --------------------------------- *)
Log(op,a) == /\ hist' = Append(hist,[op |-> op, a |-> a])
             /\ st' = st
             /\ (Emit = 0 \/ PrintT(<<"PATH", ToJson([st |-> st, h |-> hist'])>>))
Small == NV <= 11 /\ ~AnyKept
Split == Small /\ \E e \in LE(M) : \E v0 \in M.E[e] : v0 = MinOf(M.E[e]) /\
   M' = SplitEdge(M,e,v0,<<NV+1>>,<<NE+1,NE+2>>,<< <<0>> >>) /\ Log("split",VSet(M.E[e]))
FSplit == Small /\ \E f \in LF(M) : ~TwinF(f) /\ (\A v \in FV(M,f) : M.CV[v] = M.CF[f] \/ M.CV[v][1] < M.CF[f][1]) /\
   LET c == M.F[f] n == Len(c) en == TLCEval([v \in CycV(c) |-> NE + (CHOOSE i \in DOMAIN c : c[i][1] = v)]) IN
   M' = SplitFace(M,f,NV+1,en,[i \in 1..n |-> NF+i],<<0>>) /\ Log("fsplit",VSet(FV(M,f)))
FSplitE == Small /\ \E f \in LF(M) : Len(M.F[f]) >= 4 /\ ~TwinF(f) /\ \E a, b \in FV(M,f) : a # b /\
   LET old == {e \in LE(M) : M.E[e] = {a,b}} IN
   IF old = {} THEN M' = SplitFaceEdge(M,f,a,b,NE+1,NF+1,NF+2) /\ Log("fsplite",<<VSet(FV(M,f)),a,b>>)
   ELSE old \subseteq FE(M,f) /\ a < b /\ M' = M /\ Log("fsplite",<<VSet(FV(M,f)),a,b>>)
\* splits that take the simplices around along
Simplicial(r) == Cardinality(M.R[r]) = 4 /\ \A f \in RF(M,r) : Len(M.F[f]) = 3
Num(S,x) == Cardinality({y \in S : y < x})              \* position of x among the numbers in S, from 0
SimpE == Small /\ \E e \in LE(M) : \E fs \in {EF(M,e)} : \E rs \in {ER(M,e)} :
   /\ \A f \in fs : Len(M.F[f]) = 3 /\ ~TwinF(f)
   /\ \A r \in rs : Simplicial(r)
   /\ LET v0 == MinOf(M.E[e]) v1 == MaxOf(M.E[e]) vs == NV+1
          opp == TLCEval([f \in fs |-> CHOOSE v \in FV(M,f) : v \notin M.E[e]])
          fars == {opp[f] : f \in fs}
          sp == TLCEval([o \in fars |-> NE+3+Num(fars,o)])
          cyc(r) == LET a == MinOf(RV(M,r) \ M.E[e]) b == MaxOf(RV(M,r) \ M.E[e])
                        ab == CHOOSE x \in RE(M,r) : M.E[x] = {a,b} IN << <<vs,sp[a]>>, <<a,ab>>, <<b,sp[b]>> >>
      IN /\ Cardinality(fars) = Cardinality(fs)
         /\ M' = SplitSimplexEdge(M,e,v0,vs,<<NE+1,NE+2>>,<< <<0>> >>,sp,
                  [f \in fs |-> (v0 :> (NF+1+2*Num(fs,f))) @@ (v1 :> (NF+2+2*Num(fs,f)))],
                  [r \in rs |-> NF+2*Cardinality(fs)+1+Num(rs,r)],[r \in rs |-> cyc(r)],
                  [r \in rs |-> (v0 :> (NR+1+2*Num(rs,r))) @@ (v1 :> (NR+2+2*Num(rs,r)))])
   /\ Log("simpe",VSet(M.E[e]))
SimpF == Small /\ \E f \in LF(M) : \E rs \in {FR(M,f)} :
   /\ Len(M.F[f]) = 3 /\ ~TwinF(f) /\ (\A r \in rs : Simplicial(r))
   /\ \A v \in FV(M,f) : M.CV[v] = M.CF[f] \/ M.CV[v][1] < M.CF[f][1]
   /\ LET c == M.F[f] vs == NV+1
          en == TLCEval([v \in CycV(c) |-> NE + (CHOOSE i \in 1..3 : c[i][1] = v)])
          apex(r) == CHOOSE v \in RV(M,r) : v \notin CycV(c)
          spine == TLCEval([r \in rs |-> NE+4+Num(rs,r)])
          wall(r,v) == NF+3+3*Num(rs,r)+(CHOOSE i \in 1..3 : c[i][1] = v)
          cyc(r,v) == << <<vs,en[v]>>, <<v,CHOOSE x \in RE(M,r) : M.E[x] = {v,apex(r)}>>, <<apex(r),spine[r]>> >>
      IN M' = SplitSimplexFace(M,f,vs,en,<<NF+1,NF+2,NF+3>>,<<0>>,spine,[r \in rs |-> [v \in CycV(c) |-> wall(r,v)]],
                 [r \in rs |-> [v \in CycV(c) |-> cyc(r,v)]],[r \in rs |-> [i \in 1..3 |-> NR+3*Num(rs,r)+i]])
   /\ Log("simpf",VSet(FV(M,f)))
\* a region cut along the border between two connected parts of its shell
RECURSIVE Walk(_,_,_,_)
Walk(b,v,e,acc) == LET nx == Append(acc,<<v,e>>) u == CHOOSE x \in M.E[e] : x # v
                       g == {y \in b : y # e /\ u \in M.E[y]} IN
                   IF u = nx[1][1] THEN nx ELSE Walk(b,u,CHOOSE y \in g : TRUE,nx)
LoopR == Small /\ \E r \in LR(M) : Cardinality(M.R[r]) \in 6..8 /\ (\A e \in RE(M,r) : Cardinality(EF(M,e) \cap RF(M,r)) = 2) /\ \E S \in SUBSET RF(M,r) :
   /\ Cardinality(S) >= 3 /\ Cardinality(RF(M,r) \ S) >= 3 /\ MinOf(RF(M,r)) \in S
   /\ UNION {FV(M,f) : f \in S} # UNION {FV(M,f) : f \in RF(M,r) \ S}
   /\ LET T == RF(M,r) \ S
          b == TLCEval(UNION {FE(M,f) : f \in S} \cap UNION {FE(M,f) : f \in T}) IN
      /\ \A v \in UNION {M.E[e] : e \in b} : Cardinality({e \in b : v \in M.E[e]}) = 2
      /\ Spread(M,r,b,{MinOf(S)}) = S /\ Spread(M,r,b,{MinOf(T)}) = T
      /\ ~(\E f \in LF(M) : FE(M,f) = b)
      /\ LET v == MinOf(UNION {M.E[e] : e \in b}) cyc == Walk(b,v,CHOOSE e \in b : v \in M.E[e],<<>>) IN
         /\ Len(cyc) = Cardinality(b)
         /\ M' = SplitRegionLoop(M,r,NF+1,cyc,NR+1,NR+2)
         /\ Log("loopr",<<Reg(r),[i \in DOMAIN cyc |-> VSet(M.E[cyc[i][2]])]>>)
JoinF == Small /\ \E e \in LE(M) : LET fs == EF(M,e) IN Cardinality(fs) = 2 /\ \E f1 \in fs : LET f2 == CHOOSE f \in fs : f # f1 IN
   /\ FE(M,f1) \cap FE(M,f2) = {e} /\ FV(M,f1) \cap FV(M,f2) = M.E[e] /\ M.CF[f1] = M.CF[f2]
   /\ M.F[f1][PosE(M.F[f1],e)][1] # M.F[f2][PosE(M.F[f2],e)][1]
   /\ ~TwinF(f1) /\ ~TwinF(f2)
   /\ IF FR(M,f1) # FR(M,f2) THEN M' = M
      ELSE /\ \A r \in FR(M,f1) : Cardinality(M.R[r]) > 4 /\ \E d \in {0,1} : <<f1,d>> \in M.R[r] /\ <<f2,d>> \in M.R[r]
           /\ M' = JoinFaces(M,f1,f2,e,NF+1)
   /\ Log("joinf",<<VSet(FV(M,f1)),VSet(FV(M,f2)),VSet(M.E[e])>>)
JoinR == Small /\ \E f \in LF(M) : LET rs == FR(M,f) IN Cardinality(rs) = 2 /\ \E r1 \in rs : LET r2 == CHOOSE r \in rs : r # r1 IN
   /\ RF(M,r1) \cap RF(M,r2) = {f} /\ M.CR[r1] = M.CR[r2]
   /\ M' = JoinRegions(M,r1,r2,f) /\ Log("joinr",<<Reg(r1),Reg(r2),VSet(FV(M,f))>>)
Swap == Small /\ LR(M) = {} /\ \E e \in LE(M) : LET fs == EF(M,e) IN Cardinality(fs) = 2 /\
   LET f1 == CHOOSE f \in fs : TRUE  f2 == CHOOSE f \in fs : f # f1 IN
   /\ ~TwinF(f1) /\ ~TwinF(f2)
   /\ IF M.CE[e][1] # 2 \/ \E f \in fs : Len(M.F[f]) # 3 THEN M' = M
      ELSE LET x == CHOOSE v \in FV(M,f1) : v \notin M.E[e]  y == CHOOSE v \in FV(M,f2) : v \notin M.E[e] IN
           /\ M.F[f1][PosE(M.F[f1],e)][1] # M.F[f2][PosE(M.F[f2],e)][1] /\ x # y /\ x \notin VV(M,y)
           /\ M' = SwapEdge(M,e,f1,f2,NE+1,NF+1,NF+2,M.CE[e])
   /\ Log("swap",VSet(M.E[e]))
\* a contraction that leaves a proper mesh
Proper(e,a,b) ==
  LET fs == EF(M,e) tri == {f \in fs : Len(M.F[f]) = 3} third == UNION {FV(M,f) : f \in tri} \ {a,b} IN
  /\ VV(M,a) \cap VV(M,b) = third
  /\ \A f, g \in LF(M) : (a \in FV(M,f) /\ b \notin FV(M,f) /\ b \in FV(M,g) /\ a \notin FV(M,g) /\ FV(M,f) \ {a} = FV(M,g) \ {b})
        => \E r \in ER(M,e) : Cardinality(RV(M,r)) = 4 /\ {f,g} \subseteq RF(M,r)
  /\ LR(M) = {} => /\ Cardinality(third) = Cardinality(tri)
                   /\ \A f \in tri : \E x \in FE(M,f) \ {e} : Cardinality(EF(M,x)) > 1
  /\ \A f \in LF(M) : {a,b} \subseteq FV(M,f) => e \in FE(M,f)
  /\ \A r \in ER(M,e) : /\ Cardinality(RV(M,r)) \in {4,8}
                        /\ Cardinality(RV(M,r)) = 4 => \E f \in RF(M,r) : e \notin FE(M,f) /\ Cardinality(FR(M,f)) > 1
                        /\ Cardinality(RV(M,r)) = 8 => Cardinality(RF(M,r)) = 6 /\ \A f \in RF(M,r) : Len(M.F[f]) = 4
  /\ \A r \in LR(M) \ ER(M,e) : ~({a,b} \subseteq RV(M,r))
Lowest(S,C) == CHOOSE z \in S : \A y \in S : C[z][1] <= C[y][1]
Collapsing == Small /\ \E e \in LE(M) : \E vk \in M.E[e] : \E topo \in {0,1} : LET vd == CHOOSE v \in M.E[e] : v # vk IN
   /\ Proper(e,vk,vd)
   /\ \E ec \in {EdgeClasses(M,e,vd,vk)} : \E fc \in {FaceClasses(M,e,vd,vk)} :
      \* coincident entities may be merged: alike when the model is ignored, compatible when it is respected
      /\ \A c \in Range(ec) : \A x, y \in c : M.CE[x] = M.CE[y] \/ (topo = 1 /\ M.CE[x][1] # M.CE[y][1])
      /\ \A c \in Range(fc) : \A x, y \in c : M.CF[x] = M.CF[y] \/ (topo = 1 /\ M.CF[x][1] # M.CF[y][1])
      /\ IF topo = 1 /\ ~(M.CV[vk] = M.CV[vd] \/ M.CV[vk][1] < M.CV[vd][1]) THEN M' = M
         ELSE M' = Clear(LET N == Collapse(M,e,vd,vk,TLCEval([y \in DOMAIN ec |-> Lowest(ec[y],M.CE)]),TLCEval([y \in DOMAIN fc |-> Lowest(fc[y],M.CF)]))
                   IN [N EXCEPT !.X = [k \in {"V","E","F","R"} |-> [u \in DOMAIN N.X[k] |-> IF N.X[k][u] = 1 THEN 1 ELSE 0]]])
   /\ Log("collapse",<<VSet(M.E[e]),vk,topo>>)
\* gluing: the one that goes is forgotten at once
Forget(N) == Clear([N EXCEPT !.X = [k \in {"V","E","F","R"} |-> [u \in DOMAIN N.X[k] |-> IF N.X[k][u] = 1 THEN 1 ELSE 0]]])
FacesOn(e) == {VSet(FV(M,f)) : f \in EF(M,e)}
RegsOn(f) == {Reg(r) : r \in FR(M,f)}
MayKeep(c1,c2) == c1 = c2 \/ c1[1] < c2[1]
MergeV == Small /\ \E a, b \in LV(M) : \E topo \in {0,1} : a # b /\ b \notin VV(M,a)
   /\ (\A f \in LF(M) : ~({a,b} \subseteq FV(M,f))) /\ (\A r \in LR(M) : ~({a,b} \subseteq RV(M,r)))
   /\ M' = (IF topo = 0 \/ M.CV[a] = M.CV[b] THEN Forget(MergeVertices(M,a,b)) ELSE M) /\ Log("mergev",<<a,b,topo>>)
MergeE == Small /\ \E a, b \in LE(M) : \E topo \in {0,1} : a # b /\ M.E[a] = M.E[b] /\ EF(M,a) \cap EF(M,b) = {}
   /\ \A c \in LE(M) : \A x \in {a,b} : c # x /\ M.E[c] = M.E[x] => FacesOn(c) # FacesOn(x)       \* each can be named
   /\ M' = (IF topo = 0 \/ MayKeep(M.CE[a],M.CE[b]) THEN Forget(MergeEdges(M,a,b)) ELSE M)
   /\ Log("mergee",<<VSet(M.E[a]),SetToSeqAny(FacesOn(a)),SetToSeqAny(FacesOn(b)),topo>>)
MergeF == Small /\ \E a, b \in LF(M) : \E topo \in {0,1} : a # b /\ FE(M,a) = FE(M,b) /\ FR(M,a) \cap FR(M,b) = {}
   /\ \A c \in LF(M) : \A x \in {a,b} : c # x /\ FV(M,c) = FV(M,x) => RegsOn(c) # RegsOn(x)
   /\ LET N == MergeFaces(M,a,b) ok == topo = 0 \/ MayKeep(M.CF[a],M.CF[b]) IN
      /\ \A d \in {0,1} : Cardinality({r \in LR(M) : <<a,d>> \in N.R[r]}) <= 1
      /\ M' = (IF ok THEN Forget(N) ELSE M)
   /\ Log("mergef",<<VSet(FV(M,a)),SetToSeqAny(RegsOn(a)),SetToSeqAny(RegsOn(b)),topo>>)
\* deletion of what nothing uses, for good or keeping it for later, and its return
KDep == UNION {M.E[e] : e \in Kept(M.X.E)} \cup UNION {FV(M,f) : f \in Kept(M.X.F)} \cup UNION {RV(M,r) : r \in Kept(M.X.R)}
Del == NV <= 11 /\ \E keep \in {0,1} :
   \/ \E r \in LR(M) : M' = Delete(M,3,r,keep) /\ Log("del",<<3,Reg(r),keep>>)
   \/ \E f \in LF(M) : FR(M,f) = {} /\ ~TwinF(f) /\ (keep = 1 \/ ~(FV(M,f) \subseteq KDep)) /\ M' = Delete(M,2,f,keep) /\ Log("del",<<2,VSet(FV(M,f)),keep>>)
   \/ \E e \in LE(M) : EF(M,e) = {} /\ (keep = 1 \/ ~(M.E[e] \subseteq KDep)) /\ M' = Delete(M,1,e,keep) /\ Log("del",<<1,VSet(M.E[e]),keep>>)
   \/ \E v \in LV(M) : VE(M,v) = {} /\ (keep = 1 \/ v \notin KDep) /\ M' = Delete(M,0,v,keep) /\ Log("del",<<0,<<v>>,keep>>)
Rest ==
   \/ \E r \in Kept(M.X.R) : (\A f \in RF(M,r) : M.X.F[f] = 1) /\ M' = Restore(M,3,r) /\ Log("restore",<<3,Reg(r)>>)
   \/ \E f \in Kept(M.X.F) : (\A e \in FE(M,f) : M.X.E[e] = 1) /\ (\A g \in LF(M) : FE(M,g) # FE(M,f)) /\ ~(\E g \in Kept(M.X.F) : g # f /\ FV(M,g) = FV(M,f))
        /\ M' = Restore(M,2,f) /\ Log("restore",<<2,VSet(FV(M,f))>>)
   \/ \E e \in Kept(M.X.E) : (\A v \in M.E[e] : M.X.V[v] = 1) /\ M' = Restore(M,1,e) /\ Log("restore",<<1,VSet(M.E[e])>>)
   \/ \E v \in Kept(M.X.V) : M' = Restore(M,0,v) /\ Log("restore",<<0,<<v>> >>)
\* a new edge between unconnected vertices; a new triangle on given vertices, making the edges it lacks
NewE == Small /\ LR(M) = {} /\ \E a, b \in LV(M) : a < b /\ b \notin VV(M,a) /\ M' = NewEdge(M,NE+1,a,b,<<2,1>>) /\ Log("newe",<<a,b>>)
NewF == Small /\ LR(M) = {} /\ NV <= 5 /\ \E a, b, c \in LV(M) : a < b /\ a < c /\ b # c /\ (\A f \in LF(M) : FV(M,f) # {a,b,c}) /\
   LET miss == TLCEval(SetToSeqAny({s \in {{a,b},{b,c},{a,c}} : \A e \in LE(M) : M.E[e] # s}))
       M1 == AddE(M,[e \in (NE+1)..(NE+Len(miss)) |-> miss[e-NE]],[e \in (NE+1)..(NE+Len(miss)) |-> <<4,0>>])
       ed(x,y) == CHOOSE e \in LE(M1) : M1.E[e] = {x,y}
   IN M' = NewFace(M1,NF+1,<< <<a,ed(a,b)>>, <<b,ed(b,c)>>, <<c,ed(c,a)>> >>,<<2,1>>) /\ Log("newfv",<<a,b,c>>)
Init == /\ hist = <<>> /\ st \in Starts \X Styles /\ M = Mesh0(st[1],st[2])
        /\ (Emit = 0 \/ PrintT(<<"START", ToJson([st |-> st, V |-> M.V, E |-> [e \in DOMAIN M.E |-> VSet(M.E[e])], F |-> M.F,
                R |-> [r \in DOMAIN M.R |-> SetToSeqAny(M.R[r])], CV |-> M.CV, CE |-> M.CE, CF |-> M.CF, CR |-> M.CR])>>))
Plain == NoTwinEdges(M) /\ NoTwinFaces(M)       \* while parts are being glued, edges and faces are not named by their vertices alone
Next == /\ Len(hist) < Depth
        /\ \/ "merge" \in Ops /\ (MergeV \/ MergeE \/ MergeF)
           \/ /\ Plain
              /\ \/ "split" \in Ops /\ (Split \/ FSplit \/ FSplitE)
                 \/ "simplex" \in Ops /\ (SimpE \/ SimpF \/ LoopR)
                 \/ "join" \in Ops /\ (JoinF \/ JoinR \/ Swap)
                 \/ "collapse" \in Ops /\ Collapsing
                 \/ "del" \in Ops /\ (Del \/ Rest)
                 \/ "new" \in Ops /\ (NewE \/ NewF)
(* ------------------------------- invariants ------------------------------- *)
\* what holds of every mesh the actions can produce
InvWF == WF(M)
InvClosed == Closed(M)
Glued == \E i \in DOMAIN hist : hist[i].op \in {"mergev","mergee","mergef"}
InvSimple == SimpleFaces(M) /\ (NoTwinEdges(M) \/ Glued)
\* V - E + F - R is changed by nothing but the creation and deletion of single entities
Refines == {"simpe","simpf","loopr","split","fsplit","fsplite","joinf","joinr","swap","collapse"}
Chi0 == TLCEval([k \in DOMAIN Meshes |-> Euler(Mesh0(k,"flat"))])
InvEuler == (\A i \in DOMAIN hist : hist[i].op \in Refines) => Euler(M) = Chi0[st[1]]
\* derived adjacency is mutually inverse (the definitions agree with each other)
InvInverse == \E D \in {Derive(M)} :
  /\ \A v \in LV(M) : D.VF[v] = UNION {D.EF[e] : e \in D.VE[v]} /\ D.VR[v] = UNION {D.FR[f] : f \in D.VF[v]}
  /\ \A e \in LE(M) : D.ER[e] = UNION {D.FR[f] : f \in D.EF[e]}
  /\ \A f \in LF(M) : Cardinality(D.FR[f]) <= 2
\* the model dimension of an entity is never below that of ... its own closure
InvClass == (\A i \in DOMAIN hist : hist[i].op \in Refines \ {"collapse"}) =>
   /\ \A f \in LF(M) : \A e \in FE(M,f) : M.CE[e][1] <= M.CF[f][1]
   /\ \A e \in LE(M) : \A v \in M.E[e] : M.CV[v][1] <= M.CE[e][1]
Oriented == LR(M) = {} /\ st[1] # 9 /\ (\A i \in DOMAIN hist : hist[i].op \in Refines) => OrientedSurface(M)
=============================================================================
