------------------------------ MODULE MeshOps -------------------------------
(* The editing operations of MSTK as functions of the abstract mesh state and *)
(* of the identities (entity numbers) of the entities they create.            *)
EXTENDS Mesh

\* seq updated at the keys of fn; absent positions get d
Upd(seq,fn,d) == LET ks == {k \in DOMAIN fn : k >= 1}
                     n  == IF ks = {} THEN Len(seq) ELSE MaxOf(ks \cup {Len(seq)})
                 IN TLCEval([u \in 1..n |-> IF u \in ks THEN fn[u] ELSE IF u <= Len(seq) THEN seq[u] ELSE d])
Const(S,x) == [u \in S |-> x]
None == [u \in {} |-> 0]
Clear(M) == [M EXCEPT
   !.V = TLCEval([u \in DOMAIN M.V |-> IF Get(M.X.V,u,0) = 0 THEN <<>> ELSE M.V[u]]),
   !.E = TLCEval([u \in DOMAIN M.E |-> IF Get(M.X.E,u,0) = 0 THEN {} ELSE M.E[u]]),
   !.F = TLCEval([u \in DOMAIN M.F |-> IF Get(M.X.F,u,0) = 0 THEN <<>> ELSE M.F[u]]),
   !.R = TLCEval([u \in DOMAIN M.R |-> IF Get(M.X.R,u,0) = 0 THEN {} ELSE M.R[u]]),
   !.CV = TLCEval([u \in DOMAIN M.CV |-> IF Get(M.X.V,u,0) = 0 THEN <<>> ELSE M.CV[u]]),
   !.CE = TLCEval([u \in DOMAIN M.CE |-> IF Get(M.X.E,u,0) = 0 THEN <<>> ELSE M.CE[u]]),
   !.CF = TLCEval([u \in DOMAIN M.CF |-> IF Get(M.X.F,u,0) = 0 THEN <<>> ELSE M.CF[u]]),
   !.CR = TLCEval([u \in DOMAIN M.CR |-> IF Get(M.X.R,u,0) = 0 THEN <<>> ELSE M.CR[u]])]
AddV(M,fn,cl) == [M EXCEPT !.V = Upd(@,fn,<<>>), !.CV = Upd(@,cl,<<>>), !.X.V = Upd(@,Const(DOMAIN fn,1),0)]
AddE(M,fn,cl) == [M EXCEPT !.E = Upd(@,fn,{}),   !.CE = Upd(@,cl,<<>>), !.X.E = Upd(@,Const(DOMAIN fn,1),0)]
AddF(M,fn,cl) == [M EXCEPT !.F = Upd(@,fn,<<>>), !.CF = Upd(@,cl,<<>>), !.X.F = Upd(@,Const(DOMAIN fn,1),0)]
AddR(M,fn,cl) == [M EXCEPT !.R = Upd(@,fn,{}),   !.CR = Upd(@,cl,<<>>), !.X.R = Upd(@,Const(DOMAIN fn,1),0)]
DelV(M,S,st) == [M EXCEPT !.X.V = Upd(@,Const(S,st),0)]
DelE(M,S,st) == [M EXCEPT !.X.E = Upd(@,Const(S,st),0)]
DelF(M,S,st) == [M EXCEPT !.X.F = Upd(@,Const(S,st),0)]
DelR(M,S,st) == [M EXCEPT !.X.R = Upd(@,Const(S,st),0)]
\* replace face uses in all live regions: sub maps a face use <<f,d>> to a set of uses
SubR(M,sub(_)) == [M EXCEPT !.R = TLCEval([r \in DOMAIN @ |-> IF Get(M.X.R,r,0) = 1 THEN UNION {sub(p) : p \in @[r]} ELSE @[r]])]
\* replace cycle entries in all live faces: sub maps <<v,e>> to a sequence of entries
SubF(M,sub(_)) == [M EXCEPT !.F = TLCEval([f \in DOMAIN @ |->
      IF Get(M.X.F,f,0) = 1 THEN CanonCyc(Flat([i \in DOMAIN @[f] |-> sub(@[f][i])])) ELSE @[f]])]

(* --------------------------- create / delete ------------------------------ *)
NewVertex(M,v,xyz,c) == AddV(M, v :> xyz, v :> c)
NewEdge(M,e,a,b,c)   == AddE(M, e :> {a,b}, e :> c)
NewFace(M,f,cyc,c)   == AddF(M, f :> CanonCyc(cyc), f :> c)
NewRegion(M,r,uses,c) == AddR(M, r :> uses, r :> c)
Delete(M,k,u,keep) == LET st == IF keep = 1 THEN 2 ELSE 0 IN Clear(
   CASE k = 0 -> DelV(M,{u},st) [] k = 1 -> DelE(M,{u},st) [] k = 2 -> DelF(M,{u},st) [] OTHER -> DelR(M,{u},st))
Restore(M,k,u) == CASE k = 0 -> DelV(M,{u},1) [] k = 1 -> DelE(M,{u},1) [] k = 2 -> DelF(M,{u},1) [] OTHER -> DelR(M,{u},1)

(* -------------------------------- splits ---------------------------------- *)
\* edge e = v0..v1 replaced by the chain v0,vs[1],..,vs[n],v1 of edges es[1..n+1]
ChainV(v0,v1,vs) == <<v0>> \o vs \o <<v1>>
SplitEdge(M,e,v0,vs,es,xyz) ==
  LET v1 == CHOOSE v \in M.E[e] : v # v0
      ch == ChainV(v0,v1,vs)
      n  == Len(es)
      fwd == [i \in 1..n |-> <<ch[i],es[i]>>]
      bwd == [i \in 1..n |-> <<ch[n+2-i],es[n+1-i]>>]
      M1 == AddV(M,[v \in Range(vs) |-> xyz[CHOOSE i \in DOMAIN vs : vs[i] = v]],Const(Range(vs),M.CE[e]))
      M2 == AddE(M1,[x \in Range(es) |-> LET i == CHOOSE j \in DOMAIN es : es[j] = x IN {ch[i],ch[i+1]}],Const(Range(es),M.CE[e]))
      M3 == SubF(M2,LAMBDA p : IF p[2] = e THEN (IF p[1] = v0 THEN fwd ELSE bwd) ELSE <<p>>)
  IN Clear(DelE(M3,{e},0))
\* face f replaced by a fan of triangles around a new vertex
SplitFace(M,f,vn,en,fn,xyz) ==
  LET c == M.F[f] n == Len(c) cl == M.CF[f]
      M1 == AddV(M, vn :> xyz, vn :> cl)
      M2 == AddE(M1,[x \in {en[v] : v \in DOMAIN en} |-> {vn, CHOOSE v \in DOMAIN en : en[v] = x}],Const({en[v] : v \in DOMAIN en},cl))
      M3 == AddF(M2,[g \in Range(fn) |-> LET i == CHOOSE j \in DOMAIN fn : fn[j] = g
                                             w == c[(i % n)+1][1]
                                         IN CanonCyc(<< <<vn,en[c[i][1]]>>, c[i], <<w,en[w]>> >>)],Const(Range(fn),cl))
      M4 == SubR(M3,LAMBDA p : IF p[1] = f THEN {<<g,p[2]>> : g \in Range(fn)} ELSE {p})
  IN Clear(DelF(M4,{f},0))
\* face f divided by a new edge en from vertex a to vertex b
SplitFaceEdge(M,f,a,b,en,f0,f1) ==
  LET c == M.F[f] cl == M.CF[f]
      M1 == AddE(M, en :> {a,b}, en :> cl)
      M2 == AddF(M1, (f0 :> CanonCyc(Arc(c,a,b) \o << <<b,en>> >>)) @@ (f1 :> CanonCyc(Arc(c,b,a) \o << <<a,en>> >>)),
                 (f0 :> cl) @@ (f1 :> cl))
      M3 == SubR(M2,LAMBDA p : IF p[1] = f THEN {<<f0,p[2]>>,<<f1,p[2]>>} ELSE {p})
  IN Clear(DelF(M3,{f},0))

\* the direction in which face g must be used to continue the shell that use p belongs to across their common edge {a,b}
WalksTo(c,a,b) == \E i \in DOMAIN c : c[i][1] = a /\ c[(i % Len(c))+1][1] = b
Continue(M,p,g,a,b) == IF WalksTo(DirCyc(M,p),a,b) = WalksTo(M.F[g],a,b) THEN 0 ELSE 1
\* edge e = v0..v1 of a simplex mesh: every triangle and tetrahedron on it is cut in two.  vs is the new vertex, es the halves,
\* sp[o] the edge from vs to the far corner o of a triangle, h[f][w] the half of triangle f at end w, cut[r] and cyc[r] the face
\* between the halves t[r][w] of tetrahedron r
SplitSimplexEdge(M,e,v0,vs,es,xyz,sp,h,cut,cyc,t) ==
  LET v1 == CHOOSE v \in M.E[e] : v # v0
      fs == EF(M,e) rs == ER(M,e)
      opp == TLCEval([f \in fs |-> CHOOSE v \in FV(M,f) : v \notin M.E[e]])
      M1 == TLCEval(SplitEdge(M,e,v0,<<vs>>,es,xyz))
      at(g) == CHOOSE p \in fs \X {v0,v1} : h[p[1]][p[2]] = g
      half(f,w) == LET c == M1.F[f] o == opp[f] near == c[(PosV(c,vs) % Len(c))+1][1] IN
                   IF near = w THEN CanonCyc(Arc(c,vs,o) \o << <<o,sp[o]>> >>) ELSE CanonCyc(Arc(c,o,vs) \o << <<vs,sp[o]>> >>)
      M2 == TLCEval(AddE(M1,[x \in {sp[opp[f]] : f \in fs} |-> {vs, opp[CHOOSE f \in fs : sp[opp[f]] = x]}],
                            [x \in {sp[opp[f]] : f \in fs} |-> M.CF[CHOOSE f \in fs : sp[opp[f]] = x]]))
      hs == {h[p[1]][p[2]] : p \in fs \X {v0,v1}}
      M3 == TLCEval(AddF(M2,[g \in hs |-> half(at(g)[1],at(g)[2])],[g \in hs |-> M.CF[at(g)[1]]]))
      cs == {cut[r] : r \in rs}
      of(g) == CHOOSE r \in rs : cut[r] = g
      M4 == TLCEval(AddF(M3,[g \in cs |-> CanonCyc(cyc[of(g)])],[g \in cs |-> M.CR[of(g)]]))
      wh(x) == CHOOSE p \in rs \X {v0,v1} : t[p[1]][p[2]] = x
      uses(r,w) == LET far == CHOOSE p \in M.R[r] : e \notin FE(M,p[1]) /\ w \in FV(M,p[1])      \* the face of r away from e at w
                       ab == FV(M,far[1]) \ {w} a == CHOOSE v \in ab : TRUE b == CHOOSE v \in ab : v # a
                   IN {far} \cup {<<h[p[1]][w],p[2]>> : p \in {q \in M.R[r] : e \in FE(M,q[1])}} \cup {<<cut[r],Continue(M4,far,cut[r],a,b)>>}
      ts == {t[p[1]][p[2]] : p \in rs \X {v0,v1}}
      M5 == AddR(M4,[x \in ts |-> uses(wh(x)[1],wh(x)[2])],[x \in ts |-> M.CR[wh(x)[1]]])
  IN Clear(DelF(DelR(M5,rs,0),fs,0))
\* triangle f of a simplex mesh: three triangles around vs, and three tetrahedra in place of each one on f.  spine[r] is the edge from vs
\* to the apex of r, wall[r][v] and cyc[r][v] the face on spine and corner v, t[r][i] the tetrahedron on the i-th edge of f
SplitSimplexFace(M,f,vs,en,fn,xyz,spine,wall,cyc,t) ==
  LET c == M.F[f] rs == FR(M,f)
      apex == TLCEval([r \in rs |-> CHOOSE v \in RV(M,r) : v \notin CycV(c)])
      M1 == TLCEval(SplitFace(M,f,vs,en,fn,xyz))
      ss == {spine[r] : r \in rs}
      M2 == TLCEval(AddE(M1,[x \in ss |-> {vs, apex[CHOOSE r \in rs : spine[r] = x]}],[x \in ss |-> M.CR[CHOOSE r \in rs : spine[r] = x]]))
      wp == rs \X CycV(c)
      ws == {wall[p[1]][p[2]] : p \in wp}
      wh(g) == CHOOSE p \in wp : wall[p[1]][p[2]] = g
      M3 == TLCEval(AddF(M2,[g \in ws |-> CanonCyc(cyc[wh(g)[1]][wh(g)[2]])],[g \in ws |-> M.CR[wh(g)[1]]]))
      uses(r,i) == LET out == CHOOSE p \in M.R[r] : p[1] # f /\ c[i][2] \in FE(M,p[1])
                       d == CHOOSE x \in {0,1} : <<f,x>> \in M.R[r]
                       u == c[i][1] v == c[(i % 3)+1][1]
                   IN {out,<<fn[i],d>>} \cup {<<wall[r][w],Continue(M3,out,wall[r][w],w,apex[r])>> : w \in {u,v}}
      tp == rs \X (1..3)
      ts == {t[p[1]][p[2]] : p \in tp}
      to(x) == CHOOSE p \in tp : t[p[1]][p[2]] = x
      M4 == AddR(M3,[x \in ts |-> uses(to(x)[1],to(x)[2])],[x \in ts |-> M.CR[to(x)[1]]])
  IN Clear(DelR(M4,rs,0))
\* the two parts into which a closed loop of edges divides the faces around a region
RECURSIVE Spread(_,_,_,_)
Spread(M,r,loop,S) == LET es == UNION {FE(M,f) : f \in S} \ loop
                          T == {f \in RF(M,r) : FE(M,f) \cap es # {}}
                      IN IF T \subseteq S THEN S ELSE Spread(M,r,loop,S \cup T)
\* region r cut by a new face fn with boundary cycle cyc; r1 is the part that has fn pointing outwards, r2 the other
SplitRegionLoop(M,r,fn,cyc,r1,r2) ==
  LET M1 == TLCEval(AddF(M, fn :> CanonCyc(cyc), fn :> M.CR[r]))
      e == cyc[1][2] a == cyc[1][1] b == cyc[2][1]
      p == CHOOSE q \in M.R[r] : e \in FE(M,q[1]) /\ Continue(M1,q,fn,a,b) = 1
      S == Spread(M,r,CycE(cyc),{p[1]})
      u1 == {q \in M.R[r] : q[1] \in S}
      M2 == AddR(M1,(r1 :> (u1 \cup {<<fn,1>>})) @@ (r2 :> ((M.R[r] \ u1) \cup {<<fn,0>>})),(r1 :> M.CR[r]) @@ (r2 :> M.CR[r]))
  IN Clear(DelR(M2,{r},0))

(* -------------------------------- joins ----------------------------------- *)
\* faces f1,f2 sharing edge e (walked in opposite directions) become fn
JoinFaces(M,f1,f2,e,fn) ==
  LET c1 == M.F[f1] c2 == M.F[f2]
      a == c1[PosE(c1,e)][1]
      b == CHOOSE v \in M.E[e] : v # a
      M1 == AddF(M, fn :> CanonCyc(Arc(c1,b,a) \o Arc(c2,a,b)), fn :> M.CF[f1])
      M2 == SubR(M1,LAMBDA p : IF p[1] = f1 THEN {<<fn,p[2]>>} ELSE IF p[1] = f2 THEN {} ELSE {p})
  IN Clear(DelE(DelF(M2,{f1,f2},0),{e},0))
JoinRegions(M,r1,r2,f) ==
  LET M1 == [M EXCEPT !.R[r1] = {p \in M.R[r1] \cup M.R[r2] : p[1] # f}]
  IN Clear(DelF(DelR(M1,{r2},0),{f},0))
\* diagonal e of the two triangles f1,f2 replaced by the other diagonal en; new triangles g0,g1
SwapEdge(M,e,f1,f2,en,g0,g1,cl) ==
  LET c1 == M.F[f1] c2 == M.F[f2]
      a == c1[PosE(c1,e)][1] b == CHOOSE v \in M.E[e] : v # a   \* f1 walks a->b
      x == CHOOSE v \in CycV(c1) : v \notin {a,b}
      y == CHOOSE v \in CycV(c2) : v \notin {a,b}
      bx == c1[PosV(c1,b)][2] xa == c1[PosV(c1,x)][2]
      ay == c2[PosV(c2,a)][2] yb == c2[PosV(c2,y)][2]
      M1 == AddE(M, en :> {x,y}, en :> cl)
      M2 == AddF(M1, (g0 :> CanonCyc(<< <<y,en>>,<<x,xa>>,<<a,ay>> >>)) @@ (g1 :> CanonCyc(<< <<x,en>>,<<y,yb>>,<<b,bx>> >>)),
                 (g0 :> cl) @@ (g1 :> cl))
  IN Clear(DelE(DelF(M2,{f1,f2},0),{e},0))

\* an edge that no face uses gets vertex nv in place of ov
ReplaceEnd(M,e,ov,nv) == [M EXCEPT !.E[e] = (@ \ {ov}) \cup {nv}]

(* -------------------------------- merges ---------------------------------- *)
MergeVertices(M,v1,v2) ==
  LET M1 == [M EXCEPT !.E = TLCEval([e \in DOMAIN @ |-> IF Get(M.X.E,e,0) = 1 /\ v2 \in @[e] THEN (@[e] \ {v2}) \cup {v1} ELSE @[e]])]
      M2 == SubF(M1,LAMBDA p : IF p[1] = v2 THEN << <<v1,p[2]>> >> ELSE <<p>>)
  IN DelV(M2,{v2},2)
MergeEdges(M,e1,e2) == DelE(SubF(M,LAMBDA p : IF p[2] = e2 THEN << <<p[1],e1>> >> ELSE <<p>>),{e2},2)
\* f2 is replaced by f1; sense = 1 when both walk their boundary the same way
SameSense(M,f1,f2) == IF M.F[f1] = CanonCyc(M.F[f2]) THEN 1 ELSE 0
MergeFaces(M,f1,f2) ==
  LET s == SameSense(M,f1,f2)
      M1 == SubR(M,LAMBDA p : IF p[1] = f2 THEN {<<f1, IF s = 1 THEN p[2] ELSE 1-p[2]>>} ELSE {p})
  IN DelF(M1,{f2},2)

(* ------------------------------- collapse --------------------------------- *)
\* Contract edge e, moving vertex vd onto vk.  qe/qf name the survivor of every edge/face (itself unless merged).
\* Triangles on e and tetrahedra on e degenerate and go; faces/edges left with equal boundaries merge.
DegFaces(M,e) == {f \in EF(M,e) : Len(M.F[f]) = 3}
DegRegions(M,e) == {r \in ER(M,e) : Cardinality(RV(M,r)) = 4}
MoveV(S,vd,vk) == IF vd \in S THEN (S \ {vd}) \cup {vk} ELSE S
CycMove(c,e,vd,vk) == LET d == SelectSeq(c,LAMBDA p : p[2] # e)
                      IN [i \in DOMAIN d |-> IF d[i][1] = vd THEN <<vk,d[i][2]>> ELSE d[i]]
\* classes of edges (by end vertices) and faces (by vertices) after the contraction
EdgeClasses(M,e,vd,vk) ==
  LET T  == TLCEval({y \in LE(M) \ {e} : vd \in M.E[y] \/ vk \in M.E[y]})
      mv == TLCEval([y \in T |-> MoveV(M.E[y],vd,vk)])
  IN TLCEval([y \in LE(M) \ {e} |-> IF y \in T THEN {z \in T : mv[z] = mv[y]} ELSE {y}])
FaceClasses(M,e,vd,vk) ==
  LET df == TLCEval(DegFaces(M,e))
      L  == TLCEval(LF(M) \ df)
      T  == TLCEval({y \in L : vd \in FV(M,y) \/ vk \in FV(M,y)})
      mv == TLCEval([y \in T |-> MoveV(FV(M,y),vd,vk)])
  IN TLCEval([y \in L |-> IF y \in T THEN {z \in T : mv[z] = mv[y]} ELSE {y}])
Collapse(M,e,vd,vk,qe,qf) ==
  LET df == TLCEval(DegFaces(M,e))  dr == TLCEval(DegRegions(M,e))
      deade == TLCEval({x \in DOMAIN qe : qe[x] # x} \cup {e})
      deadf == TLCEval({f \in DOMAIN qf : qf[f] # f} \cup df)
      cyc == TLCEval([f \in DOMAIN qf |-> LET c == CycMove(M.F[f],e,vd,vk)
                                           IN CanonCyc([i \in DOMAIN c |-> <<c[i][1],qe[c[i][2]]>>])])
      M1 == [M EXCEPT !.E = TLCEval([x \in DOMAIN @ |-> IF M.X.E[x] = 1 THEN MoveV(@[x],vd,vk) ELSE @[x]]),
                      !.F = TLCEval([f \in DOMAIN @ |-> IF f \in DOMAIN cyc THEN cyc[f] ELSE @[f]])]
      M2 == SubR(M1,LAMBDA p : IF p[1] \in df THEN {}
                               ELSE LET g == qf[p[1]] IN
                                    {<<g, IF g = p[1] \/ cyc[g] = cyc[p[1]] THEN p[2] ELSE 1 - p[2]>>})
  IN DelR(DelF(DelE(DelV(M2,{vd},2),deade,2),deadf,2),dr,2)
\* link condition of a simplicial complex: the contraction keeps the complex a complex of the same type
LinkVs(M,v) == VV(M,v)
LinkOK(M,e) == LET vs == M.E[e] IN
   \A a, b \in vs : a # b =>
      /\ VV(M,a) \cap VV(M,b) = UNION {FV(M,f) : f \in EF(M,e)} \ vs
=============================================================================
