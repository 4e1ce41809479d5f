----------------------------- MODULE MeshTrace ------------------------------
(* Trace validation: every line of the log is one API call on the real library *)
(* with the full projected state after it.  The line is accepted when the      *)
(* abstract action of MeshOps, applied to the abstract state before the call,  *)
(* yields the logged state, and the logged query answers are the derived ones. *)
EXTENDS MeshOps, Json, IOUtils, TLCExt

Log  == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tags == Range(ndJsonDeserialize(IOEnv.TAGS)[1].tags)     \* which groups of obligations are enforced
Cont == "CONT" \in DOMAIN IOEnv                          \* triage only: report every rejection and go on
VARIABLES l, m
vars == <<l, m>>

\* an obligation: named, so that a rejection says what failed
Chk(tag,name,cond) == IF tag \notin Tags THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECT", l, tag, name>>) /\ Cont
Base(name,cond) == IF cond THEN TRUE ELSE PrintT(<<"REJECT", l, "base", name>>) /\ Cont

(* ---------------------------- state comparison ---------------------------- *)
Near(a,b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] - b[i] \in {-1,0,1}
SameV(A,B,tol) == \A v \in DOMAIN B.V : LET x == Get(A.X.V,v,0) IN
                    x # 0 => (IF v \in tol THEN Near(A.V[v],B.V[v]) ELSE A.V[v] = B.V[v])
\* data of entities that are live, or were already kept before the call
Cmp(old,A,B,fld,k) == \A u \in DOMAIN B[fld] : LET x == Get(A.X[k],u,0) IN
     (x = 1 \/ (x = 2 /\ Get(old.X[k],u,0) = 2)) => Get(A[fld],u,<<>>) = B[fld][u]
XEq(a,b) == \A u \in DOMAIN a \cup DOMAIN b : Get(a,u,0) = Get(b,u,0)
Becomes(tag,old,Aa,B,newv) == \A A \in {Aa} :
  /\ Chk(tag,"live vertices",XEq(A.X.V,B.X.V))
  /\ Chk(tag,"live edges",XEq(A.X.E,B.X.E))
  /\ Chk(tag,"live faces",XEq(A.X.F,B.X.F))
  /\ Chk(tag,"live regions",XEq(A.X.R,B.X.R))
  /\ Chk(tag,"edge ends",Cmp(old,A,B,"E","E"))
  /\ Chk(tag,"face cycles",Cmp(old,A,B,"F","F"))
  /\ Chk(tag,"region shells",Cmp(old,A,B,"R","R"))
  /\ Chk(tag,"coordinates",SameV(A,B,newv))
  /\ Chk(tag,"vertex classification",Cmp(old,A,B,"CV","V"))
  /\ Chk(tag,"edge classification",Cmp(old,A,B,"CE","E"))
  /\ Chk(tag,"face classification",Cmp(old,A,B,"CF","F"))
  /\ Chk(tag,"region classification",Cmp(old,A,B,"CR","R"))
Unchanged(tag,A,B) == Becomes(tag,A,A,B,{})

(* ------------------------------ new entities ------------------------------ *)
NewV(A,B) == {u \in LV(B) : Get(A.X.V,u,0) = 0}
NewE(A,B) == {u \in LE(B) : Get(A.X.E,u,0) = 0}
NewF(A,B) == {u \in LF(B) : Get(A.X.F,u,0) = 0}
NewR(A,B) == {u \in LR(B) : Get(A.X.R,u,0) = 0}
One(S) == Cardinality(S) = 1

(* ------------------------------- ids & lists ------------------------------ *)
IdsOK(A,B,s,x) ==
  /\ \A k \in {"V","E","F","R"} :
       /\ Chk("ids","ids of survivors unchanged", x.op \in {"renum","setid"} \/ \A u \in DOMAIN A.I[k] : (A.X[k][u] # 0 /\ Get(B.X[k],u,0) # 0) => A.I[k][u] = B.I[k][u])
       /\ Chk("ids","ids unique", IdsUnique(B.I[k],B.X[k]))
       /\ LET o == s["O" \o k] IN Chk("ids","iteration visits every entity once", NoDup(o) /\ Range(o) = Alive(B.X[k]))

\* counts, positions and identifiers all lead to the same entities
Kinds == <<"V","E","F","R">>
LookupsOK(B,q,s) ==
  \A k \in 1..4 : LET X == B.X[Kinds[k]] I == B.I[Kinds[k]] IN
    /\ Chk("ids","access by position",q.ix[k] = s["O" \o Kinds[k]])
    /\ Chk("ids","lookup by id",\A i \in DOMAIN q.id[k] : LET id == q.id[k][i][1] u == q.id[k][i][2] IN
         IF u = 0 THEN \A x \in Alive(X) : I[x] # id ELSE u \in Alive(X) /\ I[u] = id)
    /\ Chk("ids","counts",q.n[k] = Cardinality(Alive(X)))
(* -------------------------------- queries --------------------------------- *)
SetList(lst,S) == Len(lst) = Cardinality(S) /\ Range(lst) = S
Queries(B,q,D) ==
  /\ Chk("adj","vertex-vertex",\A v \in LV(B) : Range(q.VV[v]) = VV(B,v) /\ Len(q.VV[v]) = Cardinality(D.VE[v]))   \* one per edge
  /\ Chk("adj","vertex-edge",\A v \in LV(B) : SetList(q.VE[v],D.VE[v]))
  /\ Chk("adj","vertex-face",\A v \in LV(B) : SetList(q.VF[v],D.VF[v]))
  /\ Chk("adj","vertex-region",\A v \in LV(B) : SetList(q.VR[v],D.VR[v]))
  /\ Chk("adj","vertex counts",\A v \in LV(B) : q.nV[v] = <<Len(q.VV[v]),Len(q.VE[v]),Len(q.VF[v]),Len(q.VR[v])>>)
  /\ Chk("adj","edge-face",\A e \in LE(B) : SetList(q.EF[e],D.EF[e]))
  /\ Chk("adj","edge-region",\A e \in LE(B) : SetList(q.ER[e],D.ER[e]))
  /\ Chk("adj","edge counts",\A e \in LE(B) : q.nE[e] = <<Len(q.EF[e]),Len(q.ER[e])>>)
  /\ Chk("adj","face-region",\A f \in LF(B) : SetList(q.FR[f],D.FR[f]))
  /\ Chk("adj","face sides",\A f \in LF(B) : \A d \in {0,1} :
        LET rs == {r \in D.FR[f] : <<f,1-d>> \in B.R[r]} IN q.FS[f][d+1] = (IF rs = {} THEN 0 ELSE Only(rs)))
  /\ Chk("adj","face-face",q.rep = 0 => \A f \in LF(B) : D.FR[f] = {} =>      \* only F1 offers it
        /\ Range(q.FF[f]) = UNION {D.EF[e] : e \in D.FE[f]} \ {f}
        /\ Len(q.FF[f]) = SumSeq([i \in DOMAIN B.F[f] |-> Cardinality(D.EF[B.F[f][i][2]]) - 1]))
  /\ Chk("adj","adjacency by ID",\A i \in DOMAIN q.by : LET x == q.by[i] u == x[2] IN
        IF x[1] = 0 THEN /\ Range(x[3]) = VV(B,u) /\ Len(x[3]) = Cardinality(D.VE[u])
                         /\ SetList(x[4],D.VE[u]) /\ SetList(x[5],D.VF[u]) /\ SetList(x[6],D.VR[u])
        ELSE Range(x[3]) = B.E[u] /\ SetList(x[5],D.EF[u]) /\ SetList(x[6],D.ER[u]))
  /\ Chk("adj","uses",\A i \in DOMAIN q.uses : LET x == q.uses[i] u == x[2] o == x[4] IN
        (x[5] = 1) <=> CASE x[1] = 1 -> o \in B.E[u] [] x[1] = 2 /\ x[3] = 0 -> u \in D.VF[o] [] x[1] = 2 -> o \in D.FE[u]
                         [] x[3] = 0 -> u \in D.VR[o] [] x[3] = 1 -> u \in D.ER[o] [] OTHER -> u \in D.FR[o])
  /\ Chk("adj","other vertex of an edge",\A i \in DOMAIN q.opp : LET x == q.opp[i] IN
        /\ x[2] \in B.E[x[1]] /\ x[3] = x[4] /\ {x[2],x[3]} = B.E[x[1]])
  /\ Chk("adj","common edge",\A i \in DOMAIN q.com[1] : LET x == q.com[1][i] S == {e \in LE(B) : B.E[e] = Range(x[1])} IN
        IF S = {} THEN x[2] = 0 ELSE x[2] \in S)
  /\ Chk("adj","common face of vertices",\A i \in DOMAIN q.com[2] : LET x == q.com[2][i] vs == Range(x[1]) IN
        LET es == {e \in LE(B) : B.E[e] = {x[1][1],x[1][2]}} n == Cardinality(es) S == IF n > 0 THEN {f \in D.EF[Only(es)] : FV(B,f) = vs /\ Len(B.F[f]) = Len(x[1])} ELSE {}
        IN  n > 1 \/ IF S = {} THEN x[2] = 0 ELSE x[2] \in S)
  /\ Chk("adj","common face of edges",\A i \in DOMAIN q.com[3] : LET x == q.com[3][i] es == Range(x[1]) IN
        LET S == {f \in D.EF[x[1][1]] : es \subseteq D.FE[f]} IN  IF S = {} THEN x[2] = 0 ELSE x[2] \in S)
  /\ Chk("adj","face counts",\A f \in LF(B) : /\ q.nF[f][1] = Len(B.F[f]) /\ q.nF[f][2] = Len(B.F[f])
                                              /\ (q.rep = 0 /\ D.FR[f] = {}) => q.nF[f][3] = Len(q.FF[f]))
  /\ Chk("adj","face vertices",\A f \in LF(B) : Rot(q.FV[f],1) = q.FV[f] /\ \E k \in DOMAIN q.FV[f] : Rot(q.FV[f],k) = VSeq(B.F[f]))
  /\ Chk("adj","region-vertex",\A r \in LR(B) : SetList(q.RV[r],D.RV[r]))
  /\ Chk("adj","region-edge",\A r \in LR(B) : SetList(q.RE[r],D.RE[r]))
  /\ Chk("adj","region-region",\A r \in LR(B) : LET nb == {<<f,x>> \in D.RF[r] \X LR(B) : x \in D.FR[f] /\ x # r}   \* once per shared face
        IN Len(q.RR[r]) = Cardinality(nb) /\ Range(q.RR[r]) = {p[2] : p \in nb})
  /\ Chk("adj","region counts",\A r \in LR(B) : q.nR[r] = <<Len(q.RV[r]),Len(q.RE[r]),Cardinality(D.RF[r])>>)
  /\ Chk("adj","mesh counts",q.n = <<Cardinality(LV(B)),Cardinality(LE(B)),Cardinality(LF(B)),Cardinality(LR(B))>>)

(* ------------------------------- operations ------------------------------- *)
Scale == 5040
DoSplit(A,B,x) ==        \* ME_Split / ME_MultiSplit at given or equispaced points
  LET a == x.a  e == a.e  es == x.r.es  n == Len(es) - 1  nv == NewV(A,B) ne == NewE(A,B) v0 == a.v0 IN
  /\ Chk("split","number of parts", n = a.n /\ Cardinality(nv) = n /\ ne = Range(es) /\ NoDup(es))
  /\ Chk("split","parts form a chain", /\ v0 \in B.E[es[1]]
                                       /\ \A i \in 1..n : One(B.E[es[i]] \cap B.E[es[i+1]] \cap nv))
  /\ LET vs == [i \in 1..n |-> CHOOSE v \in B.E[es[i]] \cap B.E[es[i+1]] : v \in nv]
         v1 == CHOOSE v \in A.E[e] : v # v0
         xyz == IF a.xyz # <<>> THEN a.xyz
                ELSE [i \in 1..n |-> [d \in 1..3 |-> A.V[v0][d] + (i * (A.V[v1][d] - A.V[v0][d])) \div (n+1)]]
     IN Becomes("split",A,SplitEdge(A,e,v0,vs,es,xyz),B,nv)
DoFSplit(A,B,x) ==
  LET f == x.a.f c == A.F[f] n == Len(c) nv == NewV(A,B) ne == NewE(A,B) nf == NewF(A,B) vn == Only(nv) IN
  /\ Chk("split","one vertex, n edges, n faces", One(nv) /\ Cardinality(ne) = n /\ Cardinality(nf) = n /\ x.r = vn)
  /\ Chk("split","one spoke per corner, one triangle per edge",
         /\ \A i \in 1..n : One({e \in ne : B.E[e] = {vn,c[i][1]}})
         /\ \A i \in 1..n : One({g \in nf : c[i][2] \in CycE(B.F[g])}))
  /\ LET en == [v \in CycV(c) |-> CHOOSE e \in ne : B.E[e] = {vn,v}]
         fn == [i \in 1..n |-> CHOOSE g \in nf : c[i][2] \in CycE(B.F[g])]
     IN Becomes("split",A,SplitFace(A,f,vn,en,fn,x.a.xyz),B,{vn})
DoFSplitEdge(A,B,x) ==
  LET f == x.a.f a == x.a.v0 b == x.a.v1 old == {e \in LE(A) : A.E[e] = {a,b}} IN
  IF old # {} THEN Unchanged("split",A,B) /\ Chk("split","existing edge returned",x.r \in old)
  ELSE LET ne == NewE(A,B) nf == NewF(A,B) en == Only(ne)
           fa == {g \in nf : A.F[f][PosV(A.F[f],a)][2] \in CycE(B.F[g])}
           fb == {g \in nf : A.F[f][PosV(A.F[f],b)][2] \in CycE(B.F[g])}
       IN /\ Chk("split","one edge, two faces", One(ne) /\ Cardinality(nf) = 2 /\ x.r = en /\ One(fa) /\ One(fb) /\ fa # fb)
          /\ Becomes("split",A,SplitFaceEdge(A,f,a,b,en,Only(fa),Only(fb)),B,{})
DoSimpE(A,B,x) ==        \* ME_Split_SimplexMesh
  \E fs \in {EF(A,x.a.e)} : \E rs \in {ER(A,x.a.e)} : \E nv \in {NewV(A,B)} : \E ne \in {NewE(A,B)} : \E nf \in {NewF(A,B)} : \E nr \in {NewR(A,B)} :
  LET e == x.a.e v0 == x.a.v0 v1 == CHOOSE v \in A.E[e] : v # v0 ends == {v0,v1} vs == Only(nv)
      opp == TLCEval([f \in fs |-> CHOOSE v \in FV(A,f) : v \notin ends])
      es(w) == {y \in ne : B.E[y] = {w,vs}}
      hh(f,w) == {g \in nf : FV(B,g) = {vs,w,opp[f]}}
      cc(r) == {g \in nf : FV(B,g) = {vs} \cup (RV(A,r) \ ends)}
      tt(r,w) == {y \in nr : RV(B,y) = {vs,w} \cup (RV(A,r) \ ends)}
  IN /\ Chk("split","one new vertex",One(nv) /\ x.r = vs)
     /\ Chk("split","two halves and one edge per triangle",Cardinality(ne) = 2 + Cardinality(fs) /\ (\A w \in ends : One(es(w))) /\ \A f \in fs : One(es(opp[f])))
     /\ Chk("split","two triangles per triangle, one per tetrahedron",
             Cardinality(nf) = 2 * Cardinality(fs) + Cardinality(rs) /\ (\A f \in fs, w \in ends : One(hh(f,w))) /\ \A r \in rs : One(cc(r)))
     /\ Chk("split","two tetrahedra per tetrahedron",Cardinality(nr) = 2 * Cardinality(rs) /\ \A r \in rs, w \in ends : One(tt(r,w)))
     /\ LET xyz == IF x.a.xyz # <<>> THEN x.a.xyz ELSE << [d \in 1..3 |-> A.V[v0][d] + ((A.V[v1][d] - A.V[v0][d]) \div 2)] >>
            sp == TLCEval([o \in {opp[f] : f \in fs} |-> Only(es(o))])
            h == TLCEval([f \in fs |-> [w \in ends |-> Only(hh(f,w))]])
            cut == TLCEval([r \in rs |-> Only(cc(r))])
            t == TLCEval([r \in rs |-> [w \in ends |-> Only(tt(r,w))]])
        IN Becomes("split",A,SplitSimplexEdge(A,e,v0,vs,<<Only(es(v0)),Only(es(v1))>>,xyz,sp,h,cut,[r \in rs |-> B.F[cut[r]]],t),B,{vs})
DoSimpF(A,B,x) ==        \* MF_Split_SimplexMesh
  \E c \in {A.F[x.a.f]} : \E rs \in {FR(A,x.a.f)} : \E nv \in {NewV(A,B)} : \E ne \in {NewE(A,B)} : \E nf \in {NewF(A,B)} : \E nr \in {NewR(A,B)} :
  LET vs == Only(nv)
      apex == TLCEval([r \in rs |-> CHOOSE v \in RV(A,r) : v \notin CycV(c)])
      es(w) == {y \in ne : B.E[y] = {w,vs}}
      side(i) == {c[i][1],c[(i % 3)+1][1]}
      fi(i) == {g \in nf : FV(B,g) = side(i) \cup {vs}}
      ww(r,v) == {g \in nf : FV(B,g) = {vs,v,apex[r]}}
      tt(r,i) == {y \in nr : RV(B,y) = side(i) \cup {vs,apex[r]}}
  IN /\ Chk("split","one new vertex",One(nv) /\ x.r = vs)
     /\ Chk("split","one edge per corner and per tetrahedron",Cardinality(ne) = 3 + Cardinality(rs) /\ (\A v \in CycV(c) : One(es(v))) /\ \A r \in rs : One(es(apex[r])))
     /\ Chk("split","three triangles and three per tetrahedron",
             Cardinality(nf) = 3 + 3 * Cardinality(rs) /\ (\A i \in 1..3 : One(fi(i))) /\ \A r \in rs, v \in CycV(c) : One(ww(r,v)))
     /\ Chk("split","three tetrahedra per tetrahedron",Cardinality(nr) = 3 * Cardinality(rs) /\ \A r \in rs, i \in 1..3 : One(tt(r,i)))
     /\ LET wall == TLCEval([r \in rs |-> [v \in CycV(c) |-> Only(ww(r,v))]])
        IN Becomes("split",A,SplitSimplexFace(A,x.a.f,vs,[v \in CycV(c) |-> Only(es(v))],[i \in 1..3 |-> Only(fi(i))],x.a.xyz,
                   [r \in rs |-> Only(es(apex[r]))],wall,[r \in rs |-> [v \in CycV(c) |-> B.F[wall[r][v]]]],
                   [r \in rs |-> [i \in 1..3 |-> Only(tt(r,i))]]),B,{vs})
DoLoopR(A,B,x) ==        \* MR_Split_with_EdgeLoop
  \E nf \in {NewF(A,B)} : \E nr \in {NewR(A,B)} :
  LET fn == Only(nf) out == {r \in nr : <<fn,1>> \in B.R[r]} into == {r \in nr : <<fn,0>> \in B.R[r]} IN
  /\ Chk("split","one face, two regions",One(nf) /\ Cardinality(nr) = 2 /\ x.r = fn /\ One(out) /\ One(into) /\ out # into)
  /\ Chk("split","the face is bounded by the loop",CycE(B.F[fn]) = Range(x.a.es) /\ Len(B.F[fn]) = Len(x.a.es))
  /\ Becomes("split",A,SplitRegionLoop(A,x.a.reg,fn,B.F[fn],Only(out),Only(into)),B,{})
DoJoinF(A,B,x) ==
  LET f1 == x.a.f1 f2 == x.a.f2 e == x.a.e nf == NewF(A,B) IN
  IF FR(A,f1) # FR(A,f2) THEN Unchanged("join",A,B) /\ Chk("join","refused",x.r = 0)
  ELSE /\ Chk("join","one new face",One(nf) /\ x.r = Only(nf))
       /\ Becomes("join",A,JoinFaces(A,f1,f2,e,Only(nf)),B,{})
DoJoinR(A,B,x) ==
  /\ Chk("join","absorbing region returned",x.r = x.a.r1)
  /\ Becomes("join",A,JoinRegions(A,x.a.r1,x.a.r2,Only(RF(A,x.a.r1) \cap RF(A,x.a.r2))),B,{})
DoSwap(A,B,x) ==
  LET e == x.a.e fs == EF(A,e) nf == NewF(A,B) ne == NewE(A,B) IN
  IF A.CE[e][1] # 2 \/ Cardinality(fs) # 2 \/ \E f \in fs : Len(A.F[f]) # 3
  THEN Unchanged("join",A,B) /\ Chk("join","swap refused",x.r.ok = 0)
  ELSE LET v0 == x.a.v0
           f1 == CHOOSE f \in fs : A.F[f][PosE(A.F[f],e)][1] = v0
           f2 == CHOOSE f \in fs : f # f1
           v1 == CHOOSE v \in A.E[e] : v # v0
           g0 == {g \in nf : v0 \in FV(B,g)} g1 == {g \in nf : v1 \in FV(B,g)}
       IN /\ Chk("join","swap makes one edge, two triangles",x.r.ok = 1 /\ One(ne) /\ Cardinality(nf) = 2 /\ One(g0) /\ One(g1) /\ g0 # g1
                                                   /\ x.r.e = Only(ne) /\ Range(x.r.f) = nf)
          /\ Becomes("join",A,SwapEdge(A,e,f1,f2,Only(ne),Only(g0),Only(g1),A.CE[e]),B,{})
ClsMergeOK(c1,c2) == c1 = c2 \/ c1[1] < c2[1]           \* keep the entity of the lower model dimension
\* every set that held the one that goes holds the survivor instead, the other sets are as they were
SetsFollow(x,ok) == Chk("join","sets follow the merge",
   /\ Len(x.r.sets) = Len(x.a.sets)
   /\ \A i \in DOMAIN x.a.sets : IF ok THEN NoDup(x.r.sets[i]) /\ Range(x.r.sets[i]) = {IF u = x.a.d THEN x.a.k ELSE u : u \in Range(x.a.sets[i])}
                               ELSE x.r.sets[i] = x.a.sets[i])
Merged(A,B,x,ok,M) == /\ SetsFollow(x,ok)
                      /\ IF ok THEN Chk("join","survivor returned",x.r.v = x.a.k) /\ Becomes("join",A,M,B,{})
                         ELSE Chk("join","merge refused",x.r.v = 0) /\ Unchanged("join",A,B)
DoMergeV(A,B,x) == Merged(A,B,x,x.a.topo = 0 \/ A.CV[x.a.k] = A.CV[x.a.d],MergeVertices(A,x.a.k,x.a.d))
DoMergeE(A,B,x) == Merged(A,B,x,A.E[x.a.k] = A.E[x.a.d] /\ (x.a.topo = 0 \/ ClsMergeOK(A.CE[x.a.k],A.CE[x.a.d])),MergeEdges(A,x.a.k,x.a.d))
DoMergeF(A,B,x) == Merged(A,B,x,FE(A,x.a.k) = FE(A,x.a.d) /\ (x.a.topo = 0 \/ ClsMergeOK(A.CF[x.a.k],A.CF[x.a.d])),MergeFaces(A,x.a.k,x.a.d))
\* classification rule of a collapse that must respect the model
CollapseKeep(A,x) ==
  LET vs == A.E[x.a.e]  vk == x.a.vk  vd == CHOOSE v \in vs : v # vk
      ck == A.CV[vk] cd == A.CV[vd] IN
  IF x.a.topo = 0 THEN (IF x.a.pref = 1 THEN {vk} ELSE vs)
  ELSE IF ck[1] = cd[1] THEN (IF ck[2] # cd[2] THEN {} ELSE IF x.a.pref = 1 THEN {vk} ELSE vs)
  ELSE IF cd[1] < ck[1] THEN (IF x.a.pref = 1 THEN {} ELSE {vd})
  ELSE {vk}
DoCollapse(A,B,x) ==
  LET e == x.a.e keep == CollapseKeep(A,x) IN
  IF keep = {} THEN Chk("collapse","refused",x.r.v = 0) /\ Unchanged("collapse",A,B)
  ELSE
  /\ Chk("collapse","kept vertex",x.r.v \in keep)
  /\ LET vk == x.r.v  vd == CHOOSE v \in A.E[e] : v # vk
         df == TLCEval(DegFaces(A,e)) dr == TLCEval(DegRegions(A,e))
         ec == EdgeClasses(A,e,vd,vk)
         fc == FaceClasses(A,e,vd,vk)
         qe == TLCEval([y \in DOMAIN ec |-> LET s == {z \in ec[y] : Get(B.X.E,z,0) = 1} IN IF s = {} THEN 0 ELSE CHOOSE z \in s : TRUE])
         qf == TLCEval([y \in DOMAIN fc |-> LET s == {z \in fc[y] : Get(B.X.F,z,0) = 1} IN IF s = {} THEN 0 ELSE CHOOSE z \in s : TRUE])
         deade == TLCEval({y \in DOMAIN ec : qe[y] # y}) deadf == TLCEval({y \in DOMAIN fc : qf[y] # y})
     IN /\ Chk("collapse","one survivor per group of coincident edges", \A y \in DOMAIN ec : One({z \in ec[y] : Get(B.X.E,z,0) = 1}))
        /\ Chk("collapse","one survivor per group of coincident faces", \A y \in DOMAIN fc : One({z \in fc[y] : Get(B.X.F,z,0) = 1}))
        /\ Chk("collapse","survivor lies on the lowest model entity", x.a.topo = 0 \/
               /\ \A y \in DOMAIN ec : A.CE[qe[y]][1] <= A.CE[y][1]
               /\ \A y \in DOMAIN fc : A.CF[qf[y]][1] <= A.CF[y][1])
        /\ Becomes("collapse",A,Collapse(A,e,vd,vk,qe,qf),B,{})
        /\ Chk("collapse","reported deleted entities",
               Range(x.r.del) = {<<0,vd>>,<<1,e>>} \cup {<<1,y>> : y \in deade} \cup {<<2,y>> : y \in deadf \cup df} \cup {<<3,y>> : y \in dr}
               /\ NoDup(x.r.del))
        /\ Chk("collapse","reported merges",
               Range(x.r.merged) = {<<0,vd,vk>>} \cup {<<1,y,qe[y]>> : y \in deade} \cup {<<2,y,qf[y]>> : y \in deadf}
               /\ NoDup(x.r.merged))
DoDelete(A,B,x) == Becomes("del",A,Delete(A,x.a.k,x.a.u,x.a.keep),B,{})
                   /\ Chk("del","kept entity reported as deleted",x.a.keep = 1 => x.r = <<-1,x.a.k>>)
DoRestore(A,B,x) == Becomes("del",A,Restore(A,x.a.k,x.a.u),B,{}) /\ Chk("del","restored entity reported as live",x.r = <<x.a.k,x.a.k>>)
DoNewV(A,B,x) == Base("one new vertex",One(NewV(A,B))) /\ Becomes("make",A,NewVertex(A,Only(NewV(A,B)),x.a.xyz,x.a.c),B,{})
DoNewE(A,B,x) == Base("one new edge",One(NewE(A,B))) /\ Becomes("make",A,NewEdge(A,Only(NewE(A,B)),x.a.v[1],x.a.v[2],x.a.c),B,{})
DoNewF(A,B,x) == Base("one new face",One(NewF(A,B))) /\ Becomes("make",A,NewFace(A,Only(NewF(A,B)),x.a.cyc,x.a.c),B,{})
DoNewR(A,B,x) == Base("one new region",One(NewR(A,B))) /\ Becomes("make",A,NewRegion(A,Only(NewR(A,B)),Range(x.a.u),x.a.c),B,{})
\* a face given by its vertices: existing edges are reused, missing ones are made
DoNewFV(A,B,x) ==
  LET vs == x.a.v n == Len(vs) nf == NewF(A,B) f == Only(nf) ne == NewE(A,B)
      pr(i) == {vs[i],vs[(i % n)+1]}
      miss == {pr(i) : i \in 1..n} \ {A.E[e] : e \in LE(A)} IN
  /\ Base("one new face",One(nf))
  /\ Chk("make","one new edge per missing side",Cardinality(ne) = Cardinality(miss) /\ {B.E[e] : e \in ne} = miss)
  /\ LET A1 == AddE(A,[e \in ne |-> B.E[e]],[e \in ne |-> B.CE[e]])
         cyc == [i \in 1..n |-> <<vs[i], CHOOSE e \in LE(A1) : A1.E[e] = pr(i)>>]
     IN Becomes("make",A,NewFace(A1,f,cyc,x.a.c),B,{})

\* identifiers become 1..n for the named kind (9: every kind); order "seq": in the order of iteration
DoRenum(A,B,x) ==
  /\ Unchanged("renum",A,B)
  /\ \A k \in 1..4 : LET K == Kinds[k] o == x.s["O" \o K] IN
       IF x.a.k \in {k-1,9} /\ (x.a.how = 0 \/ x.a.sel[k] = 1)
       THEN /\ Chk("renum","identifiers are exactly 1..n",{B.I[K][u] : u \in Alive(B.X[K])} = 1..Cardinality(Alive(B.X[K])))
            /\ Chk("renum","sequential order",x.a.how = 0 => \A i \in DOMAIN o : B.I[K][o[i]] = i)
       ELSE Chk("renum","identifiers of other kinds unchanged",\A u \in Alive(B.X[K]) : B.I[K][u] = A.I[K][u])
DoSetId(A,B,x) ==          \* identifiers given by the caller
  /\ Unchanged("renum",A,B)
  /\ \A k \in 1..4 : LET K == Kinds[k] IN \A u \in Alive(B.X[K]) :
       Chk("renum","identifier as given",B.I[K][u] = (IF k-1 = x.a.k /\ \E i \in DOMAIN x.a.new : x.a.new[i][1] = u
                                                     THEN x.a.new[CHOOSE i \in DOMAIN x.a.new : x.a.new[i][1] = u][2] ELSE A.I[K][u]))
(* --------------------- boundary cycles of faces (C03) --------------------- *)
\* direction in which a face uses an edge: 1 from the edge's first end to its second
EDir(s,c,e) == IF s.E[e][1] = c[PosE(c,e)][1] THEN 1 ELSE 0
FaceBlock(B,s,q) ==
  \E c \in {IF q.dir = 1 THEN B.F[q.f] ELSE RevCyc(B.F[q.f])} :
    /\ (IF q.st # 0 THEN Chk("face","edges and vertices from the start vertex",
                             \E d \in {Rot(c,PosV(c,q.st))} : q.es = ESeq(d) /\ q.vs = VSeq(d))
        ELSE Chk("face","edges and vertices in one order", \E k \in DOMAIN c : \E d \in {Rot(c,k)} : q.es = ESeq(d) /\ q.vs = VSeq(d)))
    /\ Chk("face","identifiers in the same order",q.eid = q.es /\ q.vid = q.vs)
    /\ Chk("face","edge directions",Len(q.ed) = Len(q.es) /\ \A i \in DOMAIN q.es : q.ed[i] = EDir(s,B.F[q.f],q.es[i]))
    /\ Chk("face","coordinates in vertex order",q.xyz = [i \in DOMAIN q.fw |-> B.V[q.fw[i]]] /\ SameLoop(q.fw,VSeq(B.F[q.f])))
    /\ Chk("face","numbers of edges and vertices",q.n[1] = Len(c) /\ q.n[2] = Len(c))
    /\ Chk("elem","face type",q.n[3] = (IF Len(c) = 3 THEN 3 ELSE IF Len(c) = 4 THEN 4 ELSE 5))
    /\ Chk("face","entities used",Range(q.ue) = Range(q.qe) \cap CycE(c) /\ Range(q.uv) = Range(q.qv) \cap CycV(c))
DoRepE(A,B,x) == LET f == x.a.f IN Becomes("face",A,[A EXCEPT !.F[f] = ReplaceRun(A.F[f],x.a.a,x.a.b,x.a.path)],B,{})
Without(q,i) == SubSeq(q,1,i-1) \o SubSeq(q,i+1,Len(q))
DoRemE(A,B,x) == LET raw == x.a.raw i == CHOOSE j \in DOMAIN raw : raw[j][1] = x.a.e IN
  /\ Chk("face","the other edges stay as they were",x.r.raw = Without(raw,i) /\ x.r.n = Len(raw) - 1)
  /\ Chk("face","the edge no longer knows the face",Range(x.r.up) = EF(A,x.a.e) \ {x.a.f})
  /\ Becomes("face",A,Delete(A,2,x.a.f,0),B,{})
DoRevE(A,B,x) == LET raw == x.a.raw i == x.a.i IN
  /\ Chk("face","one use reversed",x.r.raw = [raw EXCEPT ![i] = <<@[1],1-@[2]>>] /\ x.r.d = 1 - raw[i][2])
  /\ Unchanged("face",A,B)
(* ------------------------ sides of regions (C04) -------------------------- *)
RegionBlock(B,q) ==
  \E uses \in {B.R[q.r]} :
    /\ Chk("region","directions of faces",Len(q.fs) = Cardinality(uses) /\ Range(q.fs) = {p[1] : p \in uses}
              /\ \A i \in DOMAIN q.fs : <<q.fs[i],q.d[i]>> \in uses /\ q.di[i] = q.d[i])
    /\ Chk("region","faces that are not of the region",\A i \in DOMAIN q.non : q.non[i] = -1)
    /\ Chk("region","identifiers in the same order",q.fid = q.fs /\ q.rid = q.rr)
    /\ Chk("region","faces used",Range(q.uf) = Range(q.qf) \cap {p[1] : p \in uses})
    /\ Chk("region","number of faces",q.n[1] = Cardinality(uses))
    /\ Chk("region","vertices and edges used",Range(q.uv) = Range(q.qv) \cap RV(B,q.r) /\ Range(q.ue) = Range(q.qe) \cap RE(B,q.r))
    /\ Chk("region","neighbours across faces",\E nb \in {{<<p[1],y>> : p \in uses, y \in LR(B) \ {q.r}}} :
              \E on \in {{z \in nb : z[1] \in RF(B,z[2])}} : Len(q.rr) = Cardinality(on) /\ Range(q.rr) = {z[2] : z \in on})
    /\ \E ty \in {ElemType(B,q.r)} :
       /\ Chk("elem","element type",q.ty = ty)
       /\ q.coh = 1 =>
          /\ Chk("elem","edges",SetList(q.es,RE(B,q.r)) /\ q.eid = q.es /\ q.n[2] = Len(q.es))
          /\ Chk("elem","vertices",SetList(q.vs,RV(B,q.r)) /\ q.vid = q.vs /\ q.n[3] = Len(q.vs))
          /\ Chk("elem","coordinates in vertex order",q.xyz = [i \in DOMAIN q.vs |-> B.V[q.vs[i]]])
          /\ Chk("elem","vertices listed in a documented numbering",ty \in 1..4 =>
                 /\ Len(q.vs) \in DOMAIN StdFaces
                 /\ \E t \in {StdOf(q.vs)} : /\ Len(t) = Cardinality(uses)
                                             /\ \A i \in DOMAIN t : \E p \in uses : SameLoop(t[i],UseLoop(B,p)))
SideBlock(B,q) ==
  LET on(d) == {r \in LR(B) : <<q.f,1-d>> \in B.R[r]} one(d) == IF on(d) = {} THEN 0 ELSE Only(on(d))
      both == SelectSeq(<<one(0),one(1)>>,LAMBDA r : r # 0) IN
    /\ Chk("region","regions on the sides of a face",q.s = <<one(0),one(1)>> /\ q.sid = q.s)
    /\ Chk("region","regions of a face",Len(q.rs) = Len(both) /\ Range(q.rs) = Range(both) /\ q.rid = q.rs)
DoRepF(A,B,x) == Becomes("region",A,[A EXCEPT !.R[x.a.r] = {p \in @ : p[1] \notin Range(x.a.old)} \cup Range(x.a.new)],B,{})
DoRevF(A,B,x) == Becomes("region",A,[A EXCEPT !.R = TLCEval([r \in DOMAIN @ |-> IF Get(A.X.R,r,0) = 1
                    THEN {IF p[1] = x.a.f THEN <<p[1],1-p[2]>> ELSE p : p \in @[r]} ELSE @[r]])],B,{})
DoSetF(A,B,x) == Becomes("region",A,[A EXCEPT !.R[x.a.r] = {IF p[1] = x.a.f THEN <<p[1],x.a.d>> ELSE p : p \in @}],B,{})
DoRemF(A,B,x) ==
  /\ Chk("region","the other faces keep their directions",NoDup(x.r.left) /\ Range(x.r.left) = {p \in A.R[x.a.r] : p[1] \notin Range(x.a.fs)})
  /\ Chk("region","removed faces forget the region",\A i \in DOMAIN x.a.fs : \A d \in {0,1} :
         x.r.side[i][d+1] = (LET S == {r \in LR(A) \ {x.a.r} : <<x.a.fs[i],1-d>> \in A.R[r]} IN IF S = {} THEN 0 ELSE Only(S)))
  /\ Unchanged("region",A,B)
(* ----------------- regions given by their vertices (C05) ------------------ *)
DoNewRV(A,B,x) ==
  \E t \in {TLCEval(IF x.a.t = <<>> THEN StdOf(x.a.v) ELSE x.a.t)} :
  LET n == Len(t) nr == NewR(A,B) nf == NewF(A,B) ne == NewE(A,B)
      miss == UNION {{ {t[i][j], t[i][(j % Len(t[i]))+1]} : j \in DOMAIN t[i]} : i \in 1..n} \ {A.E[e] : e \in LE(A)}
      have == TLCEval([i \in 1..n |-> {f \in LF(A) : FV(A,f) = Range(t[i]) /\ Len(A.F[f]) = Len(t[i])}])
      use  == TLCEval([i \in 1..n |-> {p \in LF(B) \X {0,1} : FV(B,p[1]) = Range(t[i]) /\ SameLoop(t[i],UseLoop(B,p))}])
  IN /\ Base("one new region",One(nr))
     /\ Chk("elem","one new edge per missing edge, none else",Cardinality(ne) = Cardinality(miss) /\ {B.E[e] : e \in ne} = miss)
     /\ Chk("elem","existing faces reused, missing ones made",\A i \in 1..n :
            /\ Cardinality(use[i]) = 1
            /\ have[i] # {} => \A p \in use[i] : p[1] \in have[i])
     /\ Chk("elem","no other new face",Cardinality(nf) = Cardinality({i \in 1..n : have[i] = {}}))
     /\ \E A1 \in {AddF(AddE(A,[e \in ne |-> B.E[e]],[e \in ne |-> B.CE[e]]),[f \in nf |-> B.F[f]],[f \in nf |-> B.CF[f]])} :
          Becomes("elem",A,NewRegion(A1,Only(nr),UNION {use[i] : i \in 1..n},x.a.c),B,{})
Step(A,B,x) ==
  CASE x.op = "init"    -> TRUE
    [] x.op = "noop"    -> Unchanged("noop",A,B)
    [] x.op = "newv"    -> DoNewV(A,B,x)
    [] x.op = "newe"    -> DoNewE(A,B,x)
    [] x.op = "newf"    -> DoNewF(A,B,x)
    [] x.op = "repv"    -> Becomes("make",A,ReplaceEnd(A,x.a.e,x.a.old,x.a.new),B,{})
    [] x.op = "newfv"   -> DoNewFV(A,B,x)
    [] x.op = "newr"    -> DoNewR(A,B,x)
    [] x.op = "del"     -> DoDelete(A,B,x)
    [] x.op = "restore" -> DoRestore(A,B,x)
    [] x.op = "split"   -> DoSplit(A,B,x)
    [] x.op = "fsplit"  -> DoFSplit(A,B,x)
    [] x.op = "fsplite" -> DoFSplitEdge(A,B,x)
    [] x.op = "simpe"   -> DoSimpE(A,B,x)
    [] x.op = "simpf"   -> DoSimpF(A,B,x)
    [] x.op = "loopr"   -> DoLoopR(A,B,x)
    [] x.op = "joinf"   -> DoJoinF(A,B,x)
    [] x.op = "joinr"   -> DoJoinR(A,B,x)
    [] x.op = "swap"    -> DoSwap(A,B,x)
    [] x.op = "mergev"  -> DoMergeV(A,B,x)
    [] x.op = "mergee"  -> DoMergeE(A,B,x)
    [] x.op = "mergef"  -> DoMergeF(A,B,x)
    [] x.op = "collapse" -> DoCollapse(A,B,x)
    [] x.op = "renum"   -> DoRenum(A,B,x)
    [] x.op = "setid"   -> DoSetId(A,B,x)
    [] x.op = "repe"    -> DoRepE(A,B,x)
    [] x.op = "reme"    -> DoRemE(A,B,x)
    [] x.op = "reve"    -> DoRevE(A,B,x)
    [] x.op = "repf"    -> DoRepF(A,B,x)
    [] x.op = "revf"    -> DoRevF(A,B,x)
    [] x.op = "setf"    -> DoSetF(A,B,x)
    [] x.op = "remf"    -> DoRemF(A,B,x)
    [] x.op = "newrv"   -> DoNewRV(A,B,x)
    [] OTHER -> Base("unknown operation",FALSE)

Empty == [V |-> <<>>, E |-> <<>>, F |-> <<>>, R |-> <<>>, CV |-> <<>>, CE |-> <<>>, CF |-> <<>>, CR |-> <<>>,
          X |-> [V |-> <<>>, E |-> <<>>, F |-> <<>>, R |-> <<>>], I |-> [V |-> <<>>, E |-> <<>>, F |-> <<>>, R |-> <<>>]]
Init == l = 1 /\ m = Empty
Next == /\ l <= Len(Log)
        /\ \E x \in {Log[l]} :
           /\ Base("readable connectivity",RawOK(x.s))
           /\ \E B \in {Abs(x.s)} :
              /\ Step(m,B,x)
              /\ Chk("wf","edges have two live ends",EdgesOK(B))
              /\ Chk("wf","faces are closed cycles of live edges",FacesOK(B))
              /\ Chk("wf","regions use live faces once",RegionsOK(B))
              /\ Chk("wf","one region per face side",SidesOK(B))
              /\ Chk("closed","region shells closed and coherent",Closed(B))
              /\ (IF x.op = "init" THEN TRUE ELSE IdsOK(m,B,x.s,x))
              /\ (IF "q" \in DOMAIN x THEN LookupsOK(B,x.q,x.s) /\ (IF "adj" \in Tags THEN \A D \in {Derive(B)} : Queries(B,x.q,D) ELSE TRUE) ELSE TRUE)
              /\ (IF "fc" \in DOMAIN x THEN \A i \in DOMAIN x.fc : FaceBlock(B,x.s,x.fc[i]) ELSE TRUE)
              /\ (IF "rc" \in DOMAIN x THEN \A i \in DOMAIN x.rc : RegionBlock(B,x.rc[i]) ELSE TRUE)
              /\ (IF "sc" \in DOMAIN x THEN \A i \in DOMAIN x.sc : SideBlock(B,x.sc[i]) ELSE TRUE)
              /\ m' = B
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
