------------------------------ MODULE ClassTrace ----------------------------
(* Classification inferred from a mesh (C19) and the topology checker (C23).    *)
(* State: A - the mesh as last observed.  Entities are numbered by iteration     *)
(* order; classification is <<model dimension, model id>>; dimension 4 stands    *)
(* for unknown.                                                                  *)
EXTENDS Mesh, Json, IOUtils, TLCExt
Log  == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tags == Range(ndJsonDeserialize(IOEnv.TAGS)[1].tags)
Cont == "CONT" \in DOMAIN IOEnv
VARIABLES l, A
vars == <<l, A>>
Chk(tag,name,cond) == IF tag \notin Tags THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECT", l, tag, name>>) /\ Cont
Readable(s) ==
  /\ \A e \in DOMAIN s.E : \A i \in {1,2} : s.E[e][i] \in DOMAIN s.V
  /\ \A f \in DOMAIN s.F : s.F[f] # <<>> /\ \A i \in DOMAIN s.F[f] : s.F[f][i][1] \in DOMAIN s.E /\ s.F[f][i][2] \in {0,1}
  /\ \A r \in DOMAIN s.R : \A i \in DOMAIN s.R[r] : s.R[r][i][1] \in DOMAIN s.F /\ s.R[r][i][2] \in {0,1}
Topo(s) ==
  LET fe == TLCEval([f \in DOMAIN s.F |-> {s.F[f][i][1] : i \in DOMAIN s.F[f]}])
      rf == TLCEval([r \in DOMAIN s.R |-> {s.R[r][i][1] : i \in DOMAIN s.R[r]}])
  IN [FE |-> fe, RF |-> rf,
      FV |-> TLCEval([f \in DOMAIN s.F |-> UNION {Range(s.E[e]) : e \in fe[f]}]),
      EF |-> TLCEval([e \in DOMAIN s.E |-> {f \in DOMAIN s.F : e \in fe[f]}]),
      FR |-> TLCEval([f \in DOMAIN s.F |-> {r \in DOMAIN s.R : f \in rf[r]}]),
      VE |-> TLCEval([v \in DOMAIN s.V |-> {e \in DOMAIN s.E : v \in Range(s.E[e])}])]
Keep(tag,b,but) == Chk(tag,"everything else unchanged",\A f \in DOMAIN A \ but : b[f] = A[f])
CLS == {"CV","CE","CF","CR"}

(* ------------------------------ geometry ---------------------------------- *)
\* coordinates of meshes classified with geometry are small integers
Abs1(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_,_)
Gcd(a,b) == IF b = 0 THEN a ELSE Gcd(b,a % b)
Red(v) == LET g == Gcd(Gcd(Abs1(v[1]),Abs1(v[2])),Abs1(v[3])) IN IF g = 0 THEN v ELSE <<v[1] \div g,v[2] \div g,v[3] \div g>>
Sub(a,b) == [i \in 1..3 |-> a[i]-b[i]]
Dot(a,b) == a[1]*b[1]+a[2]*b[2]+a[3]*b[3]
Cross(a,b) == <<a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1]>>
\* cosine against -cos(30 degrees) : -1 below (nearly straight), 0 on it, 1 above (sharp)
Versus(a,b) == LET d == Dot(a,b) p == 4*d*d q == 3*Dot(a,a)*Dot(b,b) IN IF d >= 0 THEN 1 ELSE IF p > q THEN -1 ELSE IF p = q THEN 0 ELSE 1
Centre(s,T,f,a) == LET S == T.FV[f] n == Cardinality(S) sum(i) == LET RECURSIVE g(_) g(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN s.V[x][i]+g(X \ {x}) IN g(S)
                   IN [i \in 1..3 |-> sum(i)-n*a[i]]
EdgeVec(s,e) == Red(Sub(s.V[s.E[e][2]],s.V[s.E[e][1]]))
FaceSide(s,T,f,e) == Red(Cross(EdgeVec(s,e),Red(Centre(s,T,f,s.V[s.E[e][1]]))))
FoldFaces(s,T,f,g,e) == Versus(FaceSide(s,T,f,e),FaceSide(s,T,g,e))
Away(s,e,v) == IF s.E[e][1] = v THEN EdgeVec(s,e) ELSE Sub(<<0,0,0>>,EdgeVec(s,e))
FoldEdges(s,e,x,v) == Versus(Away(s,e,v),Away(s,x,v))

(* -------------------------- classification (C19) -------------------------- *)
RECURSIVE Grow(_,_,_)
Grow(S,F,nb) == IF F = {} THEN S ELSE LET N == UNION {nb[x] : x \in F} \ S IN Grow(S \cup N,N,nb)
\* the classes of `id` on X are the connected pieces of nb
Pieces(X,id,nb) == \A i \in {id[x] : x \in X} : LET S == {x \in X : id[x] = i} r == CHOOSE x \in S : TRUE IN Grow({r},{r},nb) = S
\* equal keys and equal ids are the same thing
Match(X,key,id) == LET p == {<<key[x],id[x]>> : x \in X} IN Cardinality(p) = Cardinality({y[1] : y \in p}) /\ Cardinality(p) = Cardinality({y[2] : y \in p})
Determined(X,key,id) == LET p == {<<key[x],id[x]>> : x \in X} IN Cardinality(p) = Cardinality({y[1] : y \in p})
Build(x) ==
  LET a == A b == x.A geom == x.a.geom = 1
      fid == [f \in DOMAIN b.F |-> b.CF[f][2]]
      eid == [e \in DOMAIN b.E |-> b.CE[e][2]]
  IN
  \E T \in {Topo(a)} :
  \E mx \in {LET ids == {a.CR[r][2] : r \in DOMAIN a.R} IN MaxOf(ids \cup {0})} :
  \E rg \in {TLCEval([r \in DOMAIN a.R |-> IF a.CR[r][2] > 0 THEN a.CR[r][2] ELSE mx+1])} :
  \E around \in {TLCEval([f \in DOMAIN a.F |-> {rg[r] : r \in T.FR[f]}])} :
  \E inner \in {{f \in DOMAIN a.F : Cardinality(T.FR[f]) = 2 /\ Cardinality(around[f]) = 1}} :
  \E bnd \in {DOMAIN a.F \ inner} :
  \E given \in {{f \in bnd : a.CF[f][1] = 2 /\ a.CF[f][2] > 0}} :
  \E open \in {bnd \ given} :
  \E pair \in {TLCEval([f \in DOMAIN a.F |-> IF Cardinality(T.FR[f]) = 2 THEN around[f] ELSE around[f] \cup {0}])} :
  \E base \in {TLCEval([f \in bnd |-> IF f \in given THEN <<1,{a.CF[f][2]}>> ELSE <<2,pair[f]>>])} :
  \* faces on model faces around an edge, in the result
  \E EB \in {TLCEval([e \in DOMAIN a.E |-> {f \in T.EF[e] : b.CF[f][1] = 2}])} :
  \E fold \in {TLCEval([e \in {e \in DOMAIN a.E : Cardinality(EB[e]) = 2} |-> IF ~geom THEN -1 ELSE
                 LET f == CHOOSE f \in EB[e] : TRUE g == CHOOSE g \in EB[e] : g # f IN FoldFaces(a,T,f,g,e)])} :
  \E E1 \in {{e \in DOMAIN b.E : b.CE[e][1] = 1}} :
  \E efs \in {TLCEval([e \in DOMAIN a.E |-> {fid[f] : f \in EB[e]}])} :
  \E sig \in {TLCEval([e \in DOMAIN a.E |-> {<<i,Cardinality({f \in EB[e] : fid[f] = i})>> : i \in efs[e]}])} :
  \E V1 \in {TLCEval([v \in DOMAIN a.V |-> T.VE[v] \cap E1])} :
  \E ends \in {TLCEval([v \in DOMAIN a.V |-> {eid[e] : e \in V1[v]}])} :
  \E vfold \in {TLCEval([v \in {v \in DOMAIN a.V : Cardinality(V1[v]) = 2} |-> IF ~geom THEN -1 ELSE
                 LET e == CHOOSE e \in V1[v] : TRUE g == CHOOSE g \in V1[v] : g # e IN FoldEdges(a,e,g,v)])} :
  \* no angle on the threshold
  \E clear \in {~geom \/ ((\A e \in DOMAIN fold : fold[e] # 0) /\ (\A v \in DOMAIN vfold : vfold[v] # 0))} :
  /\ Chk("classfn","reports success",x.r = 1)
  /\ Keep("classfn",b,CLS)
  /\ Chk("classfn","regions keep their model region, or get one of their own",\A r \in DOMAIN a.R : b.CR[r] = <<a.CR[r][1],rg[r]>>)
  /\ Chk("classfn","faces inside a model region",\A f \in inner : b.CF[f] = <<3,Only(around[f])>>)
  /\ Chk("classfn","faces on model faces",\A f \in bnd : b.CF[f][1] = 2 /\ fid[f] > 0)
  /\ ~geom => /\ Chk("classfn","given classification of boundary faces is kept",\A f \in given : b.CF[f] = a.CF[f])
              /\ Chk("classfn","boundary faces between the same model regions",Match(open,[f \in open |-> pair[f]],fid))
              /\ Chk("classfn","existing model faces are extended",\E marked \in {{g \in DOMAIN a.F : a.CF[g][1] = 2 /\ a.CF[g][2] > 0}} : \A f \in open :
                     /\ fid[f] \in {a.CF[g][2] : g \in marked} => \E g \in marked : a.CF[g][2] = fid[f] /\ pair[g] = pair[f]
                     /\ (\E g \in marked : \A h \in marked : a.CF[h] = a.CF[g] => pair[h] = pair[f]) => fid[f] \in {a.CF[g][2] : g \in marked})
  /\ (geom /\ clear /\ (given = {} \/ open = {})) =>
       /\ Chk("classfn","model faces are the smooth pieces",
            \E nb \in {TLCEval([f \in bnd |-> {g \in UNION {EB[e] : e \in T.FE[f]} : g # f /\ base[g] = base[f] /\ \E e \in T.FE[f] \cap T.FE[g] : EB[e] = {f,g} /\ fold[e] = -1}])} : Pieces(bnd,fid,nb))
       /\ Chk("classfn","given model faces remain",\A f \in given : \E g \in given : a.CF[g] = a.CF[f] /\ b.CF[g] = a.CF[g])
  /\ Chk("classfn","edges",\A e \in DOMAIN a.E :
        CASE T.EF[e] = {} -> b.CE[e][1] = 1 /\ eid[e] > 0
          [] T.EF[e] # {} /\ EB[e] = {} -> b.CE[e][1] = 3 /\ \E f \in T.EF[e] : b.CF[f] = b.CE[e]
          [] Cardinality(EB[e]) = 2 /\ Cardinality(efs[e]) = 1 ->
               IF ~clear THEN TRUE ELSE IF a.CE[e][1] = 1 \/ fold[e] # -1 THEN b.CE[e][1] = 1 /\ eid[e] > 0 ELSE b.CE[e] = <<2,Only(efs[e])>>
          [] OTHER -> b.CE[e][1] = 1 /\ eid[e] > 0)
  /\ \E X \in {{e \in E1 : T.EF[e] # {}}} :
     ((\A e \in DOMAIN a.E : a.CE[e][1] # 1)) =>
       /\ ~geom => Chk("classfn","edges between the same model faces",Match(X,sig,eid))
       /\ (geom /\ clear) => Chk("classfn","model edges are the smooth pieces",
            \E nb \in {TLCEval([e \in X |-> {g \in X : g # e /\ sig[g] = sig[e] /\ \E v \in Range(a.E[e]) \cap Range(a.E[g]) : V1[v] = {e,g} /\ vfold[v] = -1}])} : Pieces(X,eid,nb))
  /\ Chk("classfn","vertices",\A v \in DOMAIN a.V :
        \E on2 \in {{eid[e] : e \in {g \in T.VE[v] : b.CE[g][1] = 2}}} :
        CASE T.VE[v] = {} -> b.CV[v][1] = 0
          [] T.VE[v] # {} /\ V1[v] = {} -> IF on2 = {} THEN \E e \in T.VE[v] : b.CE[e] = b.CV[v]
                            ELSE IF Cardinality(on2) = 1 THEN b.CV[v] = <<2,Only(on2)>> ELSE b.CV[v][1] = 0
          [] Cardinality(V1[v]) = 2 /\ Cardinality(ends[v]) = 1 -> IF ~clear THEN TRUE ELSE IF a.CV[v][1] = 0 \/ vfold[v] # -1 THEN b.CV[v][1] = 0 ELSE b.CV[v] = <<1,Only(ends[v])>>
          [] OTHER -> b.CV[v][1] = 0)
  /\ \E X \in {{v \in DOMAIN a.V : b.CV[v][1] = 0}} :
       /\ Chk("classfn","model vertices numbered",\A v \in X : b.CV[v][2] > 0)
       /\ Chk("classfn","a model vertex ends one set of model edges",Determined(X,[v \in X |-> b.CV[v]],ends))
  /\ Chk("classfn","nothing is classified below what it bounds",
        /\ \A e \in DOMAIN b.E : \A v \in Range(b.E[e]) : b.CV[v][1] < b.CE[e][1] \/ b.CV[v] = b.CE[e]
        /\ \A f \in DOMAIN b.F : \A e \in T.FE[f] : b.CE[e][1] < b.CF[f][1] \/ b.CE[e] = b.CF[f])

(* ------------------------ topology checker (C23) -------------------------- *)
DirCyc2(s,f,d) == LET c == RawCyc(s.E,s.F[f]) IN IF d = 1 THEN c ELSE RevCyc(c)
\* the direction in which region r, taking its face q outwards, walks edge e : the vertex it leaves
Leaves(s,q,e) == LET c == DirCyc2(s,q[1],q[2]) IN {c[i][1] : i \in {j \in DOMAIN c : c[j][2] = e}}
Broken(s,T) ==
  \* two faces of a region that share an edge walk it in the same direction, or an edge of one is in no other
  \/ \E r \in DOMAIN s.R : \E i \in DOMAIN s.R[r] : \E e \in T.FE[s.R[r][i][1]] :
        LET oth == {j \in DOMAIN s.R[r] : j # i /\ e \in T.FE[s.R[r][j][1]]} IN
        oth = {} \/ (Cardinality(oth) = 1 /\ \A j \in oth : Leaves(s,s.R[r][i],e) = Leaves(s,s.R[r][j],e))
  \* two regions on one side of a face
  \/ \E f \in DOMAIN s.F : \E d \in {0,1} : Cardinality({r \in T.FR[f] : <<f,d>> \in Range(s.R[r])}) > 1
  \* an entity on a lower model entity than something it bounds is bounded by
  \/ \E e \in DOMAIN s.E : s.CE[e][1] # 4 /\ \E v \in Range(s.E[e]) : s.CV[v][1] # 4 /\ (s.CE[e][1] < s.CV[v][1] \/ (s.CE[e][1] = s.CV[v][1] /\ s.CE[e] # s.CV[v]))
  \/ \E f \in DOMAIN s.F : s.CF[f][1] # 4 /\ \E e \in T.FE[f] : s.CE[e][1] # 4 /\ s.CF[f][1] < s.CE[e][1]
  \* a face inside a model region without two regions; an edge on a model face that does not lie between two faces of it
  \/ \E f \in DOMAIN s.F : s.CF[f][1] = 3 /\ Cardinality(T.FR[f]) # 2
  \/ \E e \in DOMAIN s.E : s.CE[e][1] = 2 /\ LET B == {f \in T.EF[e] : s.CF[f][1] = 2} IN Cardinality(B) # 2 \/ \E f \in B : s.CF[f][2] # s.CE[e][2]
  \* a vertex on a model face with no face on it
  \/ \E v \in DOMAIN s.V : s.CV[v][1] = 2 /\ T.VE[v] # {} /\ ~\E e \in T.VE[v] : \E f \in T.EF[e] : s.CF[f][1] = 2
\* around a vertex on a model face, the faces of that model face form one ring
Ring(s,T,v) == LET F == {f \in UNION {T.EF[e] : e \in T.VE[v]} : s.CF[f][1] = 2}
                   nb == [f \in F |-> {g \in F : g # f /\ \E e \in T.FE[f] \cap T.FE[g] : e \in T.VE[v]}] IN
   /\ F # {} /\ \A f \in F : s.CF[f] = s.CV[v]
   /\ \A e \in T.VE[v] : Cardinality({f \in F : e \in T.FE[f]}) \in {0,2}
   /\ LET r == CHOOSE f \in F : TRUE IN Grow({r},{r},nb) = F
\* around an edge on a model face of a solid, its regions lead from one of the two faces to the other
Fan(s,T,e) == LET B == {f \in T.EF[e] : s.CF[f][1] = 2} IN
   (UNION {T.FR[f] : f \in T.EF[e]} # {}) =>
     /\ \A f \in B : T.FR[f] # {}
     /\ \A f \in T.EF[e] \ B : Cardinality(T.FR[f]) = 2
     /\ \A r \in UNION {T.FR[f] : f \in T.EF[e]} : Cardinality({f \in T.EF[e] : r \in T.FR[f]}) = 2
Sound(s,T) ==
  /\ ~Broken(s,T)
  /\ \A e \in DOMAIN s.E : s.CE[e][1] = 2 => Fan(s,T,e)
  /\ \A v \in DOMAIN s.V : s.CV[v][1] = 2 /\ T.VE[v] # {} => Ring(s,T,v)
Check(x) == \E T \in {Topo(A)} :
  /\ Keep("topo",x.A,{})
  /\ Chk("topo","broken mesh rejected",Broken(A,T) => x.r = 0)
  /\ Chk("topo","valid mesh accepted",Sound(A,T) => x.r = 1)

Step(x) ==
  CASE x.op = "init" -> Chk("base","readable",Readable(x.A)) /\ A' = x.A
    [] x.op = "build" -> Build(x) /\ A' = x.A
    [] x.op = "check" -> Check(x) /\ A' = x.A
    [] OTHER -> FALSE
Init == l = 1 /\ A = <<>>
Next == /\ l <= Len(Log)
        /\ Step(Log[l])
        /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
