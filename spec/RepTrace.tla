------------------------------ MODULE RepTrace ------------------------------
(* One mesh, many representations (C02).  The state is the set of cells of the   *)
(* mesh, each a set of vertex loops that point out of it (surfaces: one loop).   *)
(* Whatever the representation stores, the answers of the query interface are    *)
(* functions of that state: edges are pairs of vertices, faces are vertex loops  *)
(* up to where and in which direction they are walked.                           *)
EXTENDS Mesh, Json, IOUtils, TLCExt
Log  == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tags == Range(ndJsonDeserialize(IOEnv.TAGS)[1].tags)
Cont == "CONT" \in DOMAIN IOEnv
VARIABLES l, m, w      \* m : id -> sequence of loops; w : coordinates and classification
vars == <<l, m, w>>
Chk(tag,name,cond) == IF tag \notin Tags THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECT", l, tag, name>>) /\ Cont
B2I(b) == IF b THEN 1 ELSE 0
Nxt(t,i) == t[(i % Len(t)) + 1]
LoopE(t) == {{t[i],Nxt(t,i)} : i \in DOMAIN t}
Turn(t) == [i \in DOMAIN t |-> t[Len(t)+1-i]]
Alike(t,u) == SameLoop(t,u) \/ SameLoop(t,Turn(u))
\* a list of loops is, up to the way they are walked, exactly the set of faces S
Loops(lst,S) == Len(lst) = Cardinality(S) /\ {Range(t) : t \in Range(lst)} = {Range(t) : t \in S}
                /\ \A t \in Range(lst) : \E u \in S : Alike(t,u)
SetList(lst,S) == Len(lst) = Cardinality(S) /\ Range(lst) = S
Pairs(lst,S) == Len(lst) = Cardinality(S) /\ {Range(p) : p \in Range(lst)} = S
Rel(c) ==
  LET ids == DOMAIN c
      all == TLCEval(UNION {Range(c[i]) : i \in ids})
      \* one representative per face (a face between two cells appears in both, walked oppositely)
      fs  == TLCEval({CHOOSE t \in all : Range(t) = vs : vs \in {Range(t) : t \in all}})
      ce  == TLCEval([i \in ids |-> UNION {LoopE(t) : t \in Range(c[i])}])
      cv  == TLCEval([i \in ids |-> UNION ce[i]])
      es  == TLCEval(UNION {ce[i] : i \in ids})
      own == TLCEval([t \in fs |-> {i \in ids : \E u \in Range(c[i]) : Range(u) = Range(t)}])
  IN [fs |-> fs, ce |-> ce, cv |-> cv, es |-> es, own |-> own]
CellType(c) == LET k(n) == Cardinality({i \in DOMAIN c : Len(c[i]) = n}) IN
   IF Len(c) = 4 THEN 1 ELSE IF Len(c) = 6 THEN 4 ELSE IF k(3) = 4 THEN 2 ELSE 3
Answers(x,c,D) ==
  LET dim == x.dim q == x.q full == x.rep \in {0,1} reg == IF dim = 3 THEN 1 ELSE 0
      EFs(e) == {t \in D.fs : e \in LoopE(t)}
      ERs(e) == IF dim = 3 THEN {i \in DOMAIN c : e \in D.ce[i]} ELSE {}
  IN
  /\ Chk("rep","numbers of entities",/\ q.n[1] = x.nv /\ q.n[2] = Cardinality(DOMAIN c)
                                      /\ full => q.n[3] = Cardinality(D.es) /\ q.n[4] = Cardinality(D.fs))
  /\ \A j \in DOMAIN q.v : \A a \in {q.v[j]} : \E E \in {{e \in D.es : a.v \in e}} : \E nb \in {UNION E \ {a.v}} :
     \E F \in {{t \in D.fs : a.v \in Range(t)}} : \E R \in {IF dim = 3 THEN {i \in DOMAIN c : a.v \in D.cv[i]} ELSE {}} :
       /\ Chk("rep","vertex-vertex",SetList(a.VV,nb) /\ SetList(a.vid,nb))
       /\ Chk("rep","vertex-edge",Pairs(a.VE,E))
       /\ Chk("rep","vertex-face",Loops(a.VF,F))
       /\ Chk("rep","vertex-region",SetList(a.VR,R) /\ SetList(a.rid,R))
       /\ Chk("rep","vertex counts",a.n = <<Cardinality(nb),Cardinality(E),Cardinality(F),Cardinality(R)>>)
  /\ \A j \in DOMAIN q.e : \A a \in {q.e[j]} : \A e \in {{a.a,a.b}} :
       /\ Chk("rep","common edge",Range(a.e) = e /\ Range(a.vid) = e /\ a.opp = <<a.b,a.b>>)
       /\ Chk("rep","edge-face",Loops(a.EF,EFs(e)))
       /\ Chk("rep","edge-region",SetList(a.ER,ERs(e)) /\ SetList(a.rid,ERs(e)))
       /\ Chk("rep","edge counts",a.n = <<Cardinality(EFs(e)),Cardinality(ERs(e))>>)
       /\ Chk("rep","edge uses",Range(a.u) = e)
  /\ Chk("rep","no edge between unconnected vertices",\A j \in DOMAIN q.none : q.none[j][3] = 0)
  /\ \A j \in DOMAIN q.r : \A a \in {q.r[j]} : \A L \in {c[a.c]} :
       /\ Chk("rep","faces of a cell point out of it",/\ Len(a.RF) = Len(L) /\ \A i \in DOMAIN L : Cardinality({k \in DOMAIN a.RF : SameLoop(a.RF[k],L[i])}) = 1
                                                      /\ Len(a.ri) = Len(L) /\ \A i \in DOMAIN L : Cardinality({k \in DOMAIN a.ri : SameLoop(a.ri[k],L[i])}) = 1)
       /\ Chk("rep","edges of a cell",Pairs(a.RE,D.ce[a.c]))
       /\ Chk("rep","vertices of a cell",SetList(a.RV,D.cv[a.c]) /\ a.vid = a.RV)
       /\ Chk("rep","numbering of a cell",Len(a.RV) \in DOMAIN StdFaces /\ \E t \in {StdOf(a.RV)} : Len(t) = Len(L) /\ \A i \in DOMAIN L : \E k \in DOMAIN t : SameLoop(t[k],L[i]))
       /\ Chk("rep","neighbours of a cell",full => \E nb \in {{<<t,i>> \in D.fs \X DOMAIN c : a.c \in D.own[t] /\ i \in D.own[t] \ {a.c}}} :
                 Len(a.RR) = Cardinality(nb) /\ Range(a.RR) = {p[2] : p \in nb})
       /\ Chk("rep","element type",a.ty = CellType(L))
       /\ Chk("rep","counts of a cell",a.n = <<Len(L),Cardinality(D.ce[a.c]),Cardinality(D.cv[a.c])>>)
       /\ Chk("rep","entities used by a cell",Range(a.uv) = D.cv[a.c] /\ Range(a.ue) = {1} /\ Range(a.uf) = {1})
  /\ \A j \in DOMAIN q.f : \A a \in {q.f[j]} : \E F \in {{t \in D.fs : Range(t) = Range(a.w)}} : \A n \in {Len(a.w)} :
       /\ Chk("rep","a face of the mesh",F # {} /\ \A t \in F : Alike(a.w,t))
       /\ Chk("rep","vertices of a face by ID",SameLoop(a.vid,a.w))
       /\ Chk("rep","common face of the vertices",SameLoop(a.cf,a.w) \/ SameLoop(a.cf,Turn(a.w)))
       /\ Chk("rep","edges along a face",Len(a.es) = n /\ \A i \in 1..n : Range(a.es[i]) = {a.w[i],Nxt(a.w,i)})
       /\ Chk("rep","directions along a face",a.d = a.w /\ a.di = a.w)
       /\ Chk("rep","walks from a vertex",/\ a.fw[1] = a.st /\ a.bw[1] = a.st /\ SameLoop(a.fw,a.w) /\ SameLoop(a.bw,Turn(a.w))
                                          /\ Len(a.be) = n /\ \A i \in 1..n : Range(a.be[i]) = {a.bw[i],Nxt(a.bw,i)})
       /\ Chk("rep","face counts and type",a.n = <<n,n,IF n = 3 THEN 3 ELSE IF n = 4 THEN 4 ELSE 5>>)
       /\ Chk("rep","entities used by a face",Range(a.uv) = Range(a.w) /\ Range(a.ue) = {1})
       /\ dim = 3 => /\ Chk("rep","face-region",\A t \in F : SetList(a.FR,D.own[t]) /\ SetList(a.rid,D.own[t]))
                     /\ Chk("rep","sides of a face",\A d \in {0,1} : \E on \in {{i \in DOMAIN c : \E k \in DOMAIN c[i] : SameLoop(c[i][k],IF d = 0 THEN a.w ELSE Turn(a.w))}} :
                                 a.s[d+1] = (IF on = {} THEN 0 ELSE CHOOSE i \in on : TRUE))
\* an edge is its pair of vertices, a face its loop, whichever query returned it
Identity(x,c,D) ==
  LET q == x.q
      In(t,e) == e \in LoopE(t)
      Same(t,u) == Range(t) = Range(u) /\ Alike(t,u)
  IN
  /\ \A j \in DOMAIN q.se : Chk("same","same edge",q.se[j][3] = B2I(Range(q.se[j][1]) = Range(q.se[j][2])))
  /\ \A j \in DOMAIN q.sf : Chk("same","same face",q.sf[j][3] = B2I(Same(q.sf[j][1],q.sf[j][2])))
  /\ \A j \in DOMAIN q.fe : \A a \in {q.fe[j]} : \A e \in {Range(a.p)} :
       /\ Chk("same","face uses an edge",a.u = B2I(In(a.w,e)))
       /\ Chk("same","direction of an edge in a face",In(a.w,e) => a.d = B2I(\E i \in DOMAIN a.w : a.w[i] = a.o /\ {a.o,Nxt(a.w,i)} = e))
  /\ \A j \in DOMAIN q.re : Chk("same","region uses an edge",q.re[j].u = B2I(Range(q.re[j].p) \in D.ce[q.re[j].c]))
  /\ \A j \in DOMAIN q.rf : \A a \in {q.rf[j]} : \E k \in {{i \in DOMAIN c[a.c] : Same(c[a.c][i],a.w)}} :
       /\ Chk("same","region uses a face",a.u = B2I(k # {}))
       /\ Chk("same","direction of a face in a region",k # {} => a.d = B2I(\E i \in k : SameLoop(c[a.c][i],a.w)))
Cells(x) == LET ids == {x.cells[i].id : i \in DOMAIN x.cells} IN [i \in ids |-> x.cells[CHOOSE k \in DOMAIN x.cells : x.cells[k].id = i].t]
Only1(S) == CHOOSE x \in S : TRUE
Where(x) == [xyz |-> x.xyz, cl |-> SubSeq(x.cl,1,x.nv), cc |-> [i \in {x.cells[j].id : j \in DOMAIN x.cells} |-> x.cl[x.nv+(CHOOSE k \in DOMAIN x.cells : x.cells[k].id = i)]]]
\* a copy, or a file written and read back, in whatever representation, is the same mesh
Through(x,c) ==
  /\ Chk("rep","the same cells after " \o x.op,c = m)
  /\ Chk("rep","the same coordinates after " \o x.op,x.op = "gmv" \/ x.xyz = w.xyz)
  /\ Chk("rep","the same classification after " \o x.op,x.op \in {"copy","save"} => Where(x).cl = w.cl /\ Where(x).cc = w.cc)
Step(x) == IF x.op = "other" THEN Chk("rep","the same mesh after " \o x.how,FALSE) /\ UNCHANGED <<m,w>> ELSE \E c \in {Cells(x)} :
  /\ CASE x.op = "build" -> TRUE
       [] x.op = "rem"   -> Chk("rep","history",DOMAIN c = DOMAIN m \ {x.c} /\ \A i \in DOMAIN c : c[i] = m[i])
       [] x.op = "add"   -> Chk("rep","history",DOMAIN c = DOMAIN m \cup {x.c} /\ \A i \in DOMAIN m : c[i] = m[i])
       [] OTHER -> Through(x,c)
  /\ \E D \in {Rel(c)} : Answers(x,c,D) /\ Identity(x,c,D)
  /\ m' = c /\ w' = Where(x)
Init == l = 1 /\ m = <<>> /\ w = <<>>
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
