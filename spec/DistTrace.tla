------------------------------ MODULE DistTrace -----------------------------
(* Distributed meshes (C25..C33).                                              *)
(* State: A - the global mesh as it was before distribution (or the mesh that   *)
(* the woven pieces were cut from); P - the mesh of every process as last        *)
(* observed; D - what follows from A and the partition: closures, owners.        *)
(* Kinds are numbered 1..4 (vertices, edges, faces, regions).  P[p].w[k][i] is   *)
(* the entity of A that entity i of process p is; the log proposes it, the       *)
(* specification checks it.                                                      *)
EXTENDS Dist, Json, IOUtils, TLCExt
Log  == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tags == Range(ndJsonDeserialize(IOEnv.TAGS)[1].tags)
Cont == "CONT" \in DOMAIN IOEnv
VARIABLES l, A, P, D, C
vars == <<l, A, P, D, C>>
Chk(tag,name,cond) == IF tag \notin Tags THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECT", l, tag, name>>) /\ Cont
Has(x,f) == f \in DOMAIN x

(* ------------------------- reading observed meshes ------------------------ *)
Readable(s) ==
  /\ \A e \in DOMAIN s.E : Len(s.E[e]) = 2 /\ \A i \in {1,2} : s.E[e][i] \in DOMAIN s.V
  /\ \A f \in DOMAIN s.F : s.F[f] # <<>> /\ \A i \in DOMAIN s.F[f] : s.F[f][i][1] \in DOMAIN s.E /\ s.F[f][i][2] \in {0,1}
  /\ \A r \in DOMAIN s.R : \A i \in DOMAIN s.R[r] : s.R[r][i][1] \in DOMAIN s.F /\ s.R[r][i][2] \in {0,1}
Num(s) == <<Len(s.V),Len(s.E),Len(s.F),Len(s.R)>>
Counts(s) == s.n = Num(s)
Lbl(s) == \A k \in K : Len(s.g[k]) = Num(s)[k] /\ Len(s.t[k]) = Num(s)[k] /\ Len(s.o[k]) = Num(s)[k] /\ Len(s.c[k]) = Num(s)[k]

Np(x) == DOMAIN x
Rk(p) == p-1
\* per process and kind, from an entity of A to the positions it has there
Where(Q) == TLCEval([k \in K |-> TLCEval([p \in DOMAIN Q |-> LET w == Q[p].w[k] IN TLCEval([y \in Range(w) |-> CHOOSE i \in DOMAIN w : w[i] = y])])])
At(wh,k,y) == {p \in DOMAIN wh[k] : y \in DOMAIN wh[k][p]}

(* ---------------------- pieces of the global mesh (C25) ------------------- *)
MapEnds(s,e) == <<s.w[1][s.E[e][1]],s.w[1][s.E[e][2]]>>
MapFace(s,f) == TLCEval([i \in DOMAIN s.F[f] |-> <<s.w[2][s.F[f][i][1]],s.F[f][i][2]>>])
LocCyc(s,f) == LET c == RawCyc(s.E,s.F[f]) IN TLCEval([i \in DOMAIN c |-> <<s.w[1][c[i][1]],s.w[2][c[i][2]]>>])
\* 1 same walk as in A, 0 reversed, 2 something else
Sense(s,g) == TLCEval([f \in DOMAIN s.F |-> LET c == CanonCyc(LocCyc(s,f)) d == CanonCyc(RawCyc(g.E,g.F[s.w[3][f]])) IN
                 IF c = d THEN 1 ELSE IF CanonCyc(RevCyc(c)) = d THEN 0 ELSE 2])
Witness(tag,s,g) ==
  /\ Chk(tag,"process mesh readable",Readable(s) /\ Counts(s) /\ Lbl(s))
  /\ Chk(tag,"entities are entities of the whole mesh, each at most once",
         \A k \in K : Len(s.w[k]) = Num(s)[k] /\ NoDup(s.w[k]) /\ \A i \in DOMAIN s.w[k] : s.w[k][i] \in 1..Num(g)[k])
Piece(tag,s,g,strict,kinds) ==
  /\ Witness(tag,s,g)
  /\ Chk(tag,"coordinates",\A v \in DOMAIN s.V : s.V[v] = g.V[s.w[1][v]])
  /\ Chk(tag,"edge ends",\A e \in DOMAIN s.E : LET x == MapEnds(s,e) y == g.E[s.w[2][e]] IN IF strict THEN x = y ELSE Range(x) = Range(y))
  /\ \A sense \in {Sense(s,g)} :
     /\ Chk(tag,"face cycles",\A f \in DOMAIN s.F : IF strict THEN sense[f] = 1 ELSE sense[f] # 2)
     /\ Chk(tag,"region shells",\A r \in DOMAIN s.R :
            {<<s.w[3][q[1]],IF sense[q[1]] = 1 THEN q[2] ELSE 1-q[2]>> : q \in Range(s.R[r])} = Range(g.R[s.w[4][r]]) /\ Len(s.R[r]) = Len(g.R[s.w[4][r]]))
  /\ Chk(tag,"classification",\A k \in kinds : \A i \in DOMAIN s.w[k] : s.c[k][i] = g.c[k][s.w[k][i]])
\* every process holds the elements given to it, as its own; every entity is owned exactly once
Divided(tag,Q,d,dim) ==
  /\ Chk(tag,"every process holds its elements",\A p \in DOMAIN Q : LET w == Q[p].w[ElK(dim)] IN
        {w[i] : i \in {j \in DOMAIN w : Q[p].t[ElK(dim)][j] # PGHOST}} = d.own[Rk(p)])
  /\ Chk(tag,"every entity owned by exactly one process",\A k \in K : \A own \in {TLCEval([p \in DOMAIN Q |-> LET s == Q[p] IN {s.w[k][i] : i \in {j \in DOMAIN s.w[k] : s.t[k][j] # PGHOST}}])} :
        /\ UNION {own[p] : p \in DOMAIN Q} = 1..d.num[k]
        /\ \A p \in DOMAIN Q : \A q \in DOMAIN Q : p < q => own[p] \cap own[q] = {})
\* values : attributes list, per entity that holds something, <<kind, entity, value>>
ZeroV(v) == \A i \in DOMAIN v : v[i] \in {"0","0.0","-0.0"}
Vals(at) == {<<x[1],x[2],x[3]>> : x \in {y \in Range(at.v) : ~ZeroV(y[3])}}
MapVals(at,w) == {<<x[1],w[x[1]+1][x[2]],x[3]>> : x \in Vals(at)}
Inside(s,k,y) == y \in Range(s.w[k])
Sent(at) == at.t # 2 /\ at.d # 5
AttsGiven(tag,s,g) ==
  /\ Chk(tag,"attributes present",\A i \in DOMAIN g.at : Sent(g.at[i]) => \E j \in DOMAIN s.at : s.at[j].n = g.at[i].n)
  /\ Chk(tag,"attribute kinds",\A j \in DOMAIN s.at : \A i \in DOMAIN g.at : (g.at[i].n = s.at[j].n /\ Sent(g.at[i])) =>
         g.at[i].t = s.at[j].t /\ g.at[i].d = s.at[j].d /\ (g.at[i].t \in {3,4} => g.at[i].c = s.at[j].c))
  /\ Chk(tag,"attribute values",\A j \in DOMAIN s.at : \A i \in DOMAIN g.at : (g.at[i].n = s.at[j].n /\ Sent(g.at[i])) =>
         MapVals(s.at[j],s.w) = {x \in Vals(g.at[i]) : Inside(s,x[1]+1,x[2])})
SetsGiven(tag,s,g) ==
  Chk(tag,"sets",
     /\ \A i \in DOMAIN g.st : LET want == {e \in Range(g.st[i].e) : e[1] # 9 /\ Inside(s,e[1]+1,e[2])} IN
        want = {} \/ \E j \in DOMAIN s.st : s.st[j].n = g.st[i].n
     /\ \A i \in DOMAIN g.st : \A j \in DOMAIN s.st : s.st[j].n = g.st[i].n =>
        /\ s.st[j].d = g.st[i].d /\ NoDup(s.st[j].e)
        /\ {<<e[1],s.w[e[1]+1][e[2]]>> : e \in Range(s.st[j].e)} = {e \in Range(g.st[i].e) : e[1] # 9 /\ Inside(s,e[1]+1,e[2])})

(* (vector or tensor: depends on the number of components and of dimensions)     *)
(* ---------------- files read in pieces (C35) ------------------------------ *)
\* fields and sets of what the process read itself: its elements and their vertices; a side is listed with one of
\* the elements it is between, so that it is certain to be known only to the process that read that element
FieldsRead(tag,s,g,H,d,dim) ==
  \A own \in {TLCEval([k \in K |-> ClosOf(d,H,k)])} :
  /\ Chk(tag,"fields present",\A i \in DOMAIN g.at : g.at[i].t \in {1,3,4} => \E j \in DOMAIN s.at :
         s.at[j].n = g.at[i].n /\ (s.at[j].t = 1) = (g.at[i].t = 1) /\ s.at[j].t \in {1,3,4} /\ s.at[j].d = g.at[i].d /\ (s.at[j].t \in {3,4} => s.at[j].c = g.at[i].c))
  /\ Chk(tag,"field values",\A j \in DOMAIN s.at : \A i \in DOMAIN g.at : (g.at[i].n = s.at[j].n /\ g.at[i].t \in {1,3,4}) =>
         {x \in MapVals(s.at[j],s.w) : x[2] \in own[x[1]+1]} = {x \in Vals(g.at[i]) : x[2] \in own[x[1]+1]})
  /\ Chk(tag,"sets of vertices and elements",\A i \in DOMAIN g.st : g.st[i].d \in {0,dim} => \E j \in DOMAIN s.st :
         /\ s.st[j].n = g.st[i].n /\ s.st[j].d = g.st[i].d /\ NoDup(s.st[j].e)
         /\ {x \in {<<e[1],s.w[e[1]+1][e[2]]>> : e \in Range(s.st[j].e)} : x[2] \in own[x[1]+1]} = {<<e[1],e[2]>> : e \in {e \in Range(g.st[i].e) : e[2] \in own[e[1]+1]}})
SidesRead(tag,Q,g,dim) ==
  Chk(tag,"sets of sides",\A i \in DOMAIN g.st : g.st[i].d = dim-1 /\ g.st[i].n # "faceset" =>
     UNION {UNION {{<<e[1],Q[p].w[e[1]+1][e[2]]>> : e \in Range(Q[p].st[j].e)} : j \in {j \in DOMAIN Q[p].st : Q[p].st[j].n = g.st[i].n /\ Q[p].st[j].d = g.st[i].d}} : p \in DOMAIN Q}
       = {<<e[1],e[2]>> : e \in Range(g.st[i].e)})

(* ------------------ ownership and ghost labels (C26) ---------------------- *)
Labels(tag,Q,d,ring,strict) ==
  \A wh \in {Where(Q)} :
  /\ Chk(tag,"each process holds its elements and the ghost layer",\A p \in DOMAIN Q : LET H == Held(d,Rk(p),ring) IN
        \A k \in K : Range(Q[p].w[k]) = ClosOf(d,H,k))
  /\ Chk(tag,"owner among the processes using the entity",\A p \in DOMAIN Q : \A k \in K : \A i \in DOMAIN Q[p].w[k] :
        Q[p].t[k][i] # PGHOST => Q[p].o[k][i] = Rk(p) /\ Rk(p) \in d.parts[k][Q[p].w[k][i]])
  /\ Chk(tag,"copies agree on the owner",\A k \in K : \A y \in 1..d.num[k] : \A S \in {At(wh,k,y)} :
        /\ \A p \in S : \A q \in S : Q[p].o[k][wh[k][p][y]] = Q[q].o[k][wh[k][q][y]]
        /\ \A p \in S : LET o == Q[p].o[k][wh[k][p][y]] IN
             /\ o+1 \in S
             /\ (Q[p].t[k][wh[k][p][y]] = PGHOST) = (o # Rk(p)))
  \* (weaving without a ghost layer labels as overlap what a ghost layer would share)
  /\ (strict \/ ring > 0) => Chk(tag,"overlap and interior labels",\A k \in K : \A p \in DOMAIN Q : \A i \in DOMAIN Q[p].w[k] :
        Q[p].t[k][i] # PGHOST => Q[p].t[k][i] = IF At(wh,k,Q[p].w[k][i]) = {p} THEN PINTERIOR ELSE POVERLAP)
Lists(tag,Q) == \A p \in DOMAIN Q :
  /\ Chk(tag,"ghost lists",\A k \in K : NoDup(Q[p].gl[k]) /\ Range(Q[p].gl[k]) = {i \in DOMAIN Q[p].t[k] : Q[p].t[k][i] = PGHOST})
  /\ Chk(tag,"overlap lists",\A k \in K : NoDup(Q[p].ol[k]) /\ Range(Q[p].ol[k]) = {i \in DOMAIN Q[p].t[k] : Q[p].t[k][i] = POVERLAP})

(* ------------------------ global identifiers (C27) ------------------------ *)
Gids(tag,Q) ==
  \A k \in K :
  \A pairs \in {UNION {{<<Q[p].g[k][i],Q[p].w[k][i]>> : i \in DOMAIN Q[p].g[k]} : p \in DOMAIN Q}} :
  /\ Chk(tag,"global identifiers positive",\A x \in pairs : x[1] > 0)
  /\ Chk(tag,"copies share a global identifier",Cardinality({x[2] : x \in pairs}) = Cardinality(pairs))
  /\ Chk(tag,"different entities have different global identifiers",Cardinality({x[1] : x \in pairs}) = Cardinality(pairs))
LookOK(tag,Q) == Chk(tag,"lookup by global identifier",\A p \in DOMAIN Q : Has(Q[p],"look") =>
  \A k \in K : \A j \in DOMAIN Q[p].look[k] : LET g == Q[p].look[k][j][1] i == Q[p].look[k][j][2] IN
    IF i = 0 THEN g \notin Range(Q[p].g[k]) ELSE i \in DOMAIN Q[p].g[k] /\ Q[p].g[k][i] = g)
\* after renumbering (k = 0..3, 5 for all kinds) owned entities are numbered 1..N over all processes
Renumbered(tag,Q,kind) ==
  \A k \in K : (kind = 5 \/ kind = k-1) =>
    \A own \in {UNION {{<<p,i>> : i \in {j \in DOMAIN Q[p].t[k] : Q[p].t[k][j] # PGHOST}} : p \in DOMAIN Q}} :
      Chk(tag,"numbered without gaps",{Q[x[1]].g[k][x[2]] : x \in own} = 1..Cardinality(own))

(* ------------------------- what a step leaves alone ----------------------- *)
Fields == {"V","E","F","R","n","at","st","c","g","t","o","gl","ol","w"}
Keep(tag,Q,but) == Chk(tag,"everything else unchanged",\A p \in DOMAIN Q : \A f \in Fields \ but : Q[p][f] = P[p][f])
Named(s,n) == {j \in DOMAIN s.at : s.at[j].n = n}
AttNo(s,n) == CHOOSE j \in DOMAIN s.at : s.at[j].n = n
KeepAtts(tag,Q,names) == Chk(tag,"other attributes unchanged",\A p \in DOMAIN Q :
    /\ Len(Q[p].at) = Len(P[p].at)
    /\ \A j \in DOMAIN Q[p].at : Q[p].at[j].n = P[p].at[j].n /\ Q[p].at[j].t = P[p].at[j].t /\ Q[p].at[j].d = P[p].at[j].d /\ Q[p].at[j].c = P[p].at[j].c
         /\ (Q[p].at[j].n \notin names => Q[p].at[j].v = P[p].at[j].v))
\* the value entity i of kind k (1..4) has in attribute n of process mesh s; <<>> stands for nothing or zeros
ValMap(s,n) == IF Named(s,n) = {} THEN <<>> ELSE LET at == s.at[AttNo(s,n)] IN
     TLCEval([k \in K |-> LET V == {y \in Range(at.v) : y[1] = k-1 /\ ~ZeroV(y[3])} IN
        TLCEval([i \in {y[2] : y \in V} |-> (CHOOSE y \in V : y[2] = i)[3]])])
Val(m,k,i) == IF m = <<>> THEN <<>> ELSE IF i \in DOMAIN m[k] THEN m[k][i] ELSE <<>>

(* ----------------------- attribute updates (C28) -------------------------- *)
Updated(tag,Q,n) ==
  \A wh \in {Where(P)} : \A old \in {TLCEval([p \in DOMAIN P |-> ValMap(P[p],n)])} : \A nu \in {TLCEval([p \in DOMAIN P |-> ValMap(Q[p],n)])} :
  /\ Chk(tag,"owned values unchanged",\A p \in DOMAIN P : \A k \in K : \A i \in DOMAIN P[p].t[k] : P[p].t[k][i] # PGHOST => Val(nu[p],k,i) = Val(old[p],k,i))
  /\ Chk(tag,"ghost values are the owner's",\A p \in DOMAIN P : \A k \in K : \A i \in DOMAIN P[p].t[k] : P[p].t[k][i] = PGHOST =>
        LET o == P[p].o[k][i]+1 IN Val(nu[p],k,i) = Val(old[o],k,wh[k][o][P[p].w[k][i]]))
AllNames(s) == {s.at[j].n : j \in {i \in DOMAIN s.at : s.at[i].t # 2 /\ s.at[i].d # 5}}
DoUpdate(x) ==
  \* pointers, and attributes on all kinds at once, are refused
  /\ Chk("upd","reports success",\A p \in DOMAIN x.r : x.r[p] = IF x.a.names = <<"*">> \/ Range(x.a.names) \subseteq AllNames(P[p]) THEN 1 ELSE 0)
  /\ Keep("upd",x.P,{"at"})
  /\ \A names \in {IF x.a.names = <<"*">> THEN UNION {AllNames(P[p]) : p \in DOMAIN P} ELSE Range(x.a.names) \cap UNION {AllNames(P[p]) : p \in DOMAIN P}} :
     /\ KeepAtts("upd",x.P,names)
     /\ \A n \in names : Updated("upd",x.P,n)

(* --------------------------- gather-scatter (C29) ------------------------- *)
\* numeric attributes carry their values as integers as well (field i)
NumMap(s,n) == IF Named(s,n) = {} THEN <<>> ELSE LET at == s.at[AttNo(s,n)] IN
     TLCEval([k \in K |-> LET V == {y \in Range(at.i) : y[1] = k-1} IN
        TLCEval([i \in {y[2] : y \in V} |-> (CHOOSE y \in V : y[2] = i)[3]])])
NumVal(m,k,i,c) == IF Val(m,k,i) = <<>> THEN [j \in 1..c |-> 0] ELSE Val(m,k,i)
Norm2(v) == SumSeq([j \in DOMAIN v |-> (v[j] \div 60)*(v[j] \div 60)])
DoGS(x) ==
  LET k == x.a.k+1 c == x.a.c n == x.a.name op == x.a.op Q == x.P IN
  /\ Chk("gs","reports success",\A p \in DOMAIN x.r : x.r[p] = 1)
  /\ Keep("gs",Q,{"at"}) /\ KeepAtts("gs",Q,{n})
  /\ \A wh \in {Where(P)} : \A old \in {TLCEval([p \in DOMAIN P |-> NumMap(P[p],n)])} : \A nu \in {TLCEval([p \in DOMAIN P |-> NumMap(Q[p],n)])} :
     /\ Chk("gs","other kinds unchanged",\A p \in DOMAIN P : \A j \in K \ {k} : \A i \in DOMAIN P[p].t[j] : Val(nu[p],j,i) = Val(old[p],j,i))
     /\ Chk("gs","combined value on every copy",\A y \in 1..D.num[k] : \A S \in {At(wh,k,y)} : LET
             o(p) == NumVal(old[p],k,wh[k][p][y],c)
             v(p) == NumVal(nu[p],k,wh[k][p][y],c)
             s == SetToSeqAny(S)
             sum(j) == SumSeq([q \in DOMAIN s |-> o(s[q])[j]])
         IN \/ S = {}
            \/ /\ \A p \in S : \A q \in S : v(p) = v(q)
               /\ \A p \in S :
                  CASE op = 3 -> \A j \in 1..c : v(p)[j] = sum(j)
                    [] op = 4 -> \A j \in 1..c : v(p)[j]*Cardinality(S) = sum(j)
                    [] op = 1 /\ x.a.t # 3 -> v(p)[1] = MaxOf({o(q)[1] : q \in S})
                    [] op = 2 /\ x.a.t # 3 -> v(p)[1] = MinOf({o(q)[1] : q \in S})
                    [] op = 1 /\ x.a.t = 3 -> v(p) \in {o(q) : q \in S} /\ \A q \in S : Norm2(v(p)) >= Norm2(o(q))
                    [] op = 2 /\ x.a.t = 3 -> v(p) \in {o(q) : q \in S} /\ \A q \in S : Norm2(v(p)) <= Norm2(o(q)))

(* ------------------ exchange across partition boundaries (C30) ------------ *)
\* entity y between elements of exactly two parts: the owner receives the value the other of the two processes
\* has for it and every other copy receives the owner's; otherwise copies receive the owner's value
DoXchg(x) ==
  LET k == x.a.k+1 n == x.a.name Q == x.P IN
  /\ Chk("xchg","reports success",\A p \in DOMAIN x.r : x.r[p] = 1)
  /\ Keep("xchg",Q,{"at"}) /\ KeepAtts("xchg",Q,{n})
  /\ \A wh \in {Where(P)} : \A old \in {TLCEval([p \in DOMAIN P |-> ValMap(P[p],n)])} : \A nu \in {TLCEval([p \in DOMAIN P |-> ValMap(Q[p],n)])} :
     /\ Chk("xchg","other kinds unchanged",\A p \in DOMAIN P : \A j \in K \ {k} : \A i \in DOMAIN P[p].t[j] : Val(nu[p],j,i) = Val(old[p],j,i))
     /\ Chk("xchg","exchanged values",\A y \in 1..D.num[k] : Cardinality(D.parts[k][y]) \in {1,2} =>
          \A S \in {At(wh,k,y)} : \A p \in S :
             LET own == P[p].o[k][wh[k][p][y]]
                 oth == D.parts[k][y] \ {own}
                 src == IF Rk(p) # own THEN own ELSE IF oth = {} THEN own ELSE Only(oth)
             IN own \in D.parts[k][y] => Val(nu[p],k,wh[k][p][y]) = Val(old[src+1],k,wh[k][src+1][y]))
DoCoords(x) ==
  /\ Chk("xchg","reports success",\A p \in DOMAIN x.r : x.r[p] = 1)
  /\ Keep("xchg",x.P,{"V"})
  /\ \A wh \in {Where(P)} :
     Chk("xchg","coordinates of copies",\A p \in DOMAIN P : \A v \in DOMAIN P[p].V :
        LET o == P[p].o[1][v]+1 IN x.P[p].V[v] = IF P[p].t[1][v] # PGHOST THEN P[p].V[v] ELSE P[o].V[wh[1][o][P[p].w[1][v]]])

(* ----------------- deleting from a distributed mesh (C26) ----------------- *)
\* el[p][k] : the positions deleted; everything else keeps its order, labels, identifiers, values
DoDel(x) ==
  \A p \in DOMAIN P : LET s == P[p] q == x.P[p] IN
  \A gone \in {TLCEval([k \in K |-> Range(x.a.el[p][k])])} :
  \A kept \in {TLCEval([k \in K |-> SelectSeq([i \in 1..Num(s)[k] |-> i],LAMBDA i : i \notin gone[k])])} :
  \A pos \in {TLCEval([k \in K |-> TLCEval([i \in Range(kept[k]) |-> CHOOSE j \in DOMAIN kept[k] : kept[k][j] = i])])} :
  /\ Chk("ghost","remaining mesh readable",Readable(q) /\ Counts(q) /\ Lbl(q))
  /\ Chk("ghost","the right entities remain",\A k \in K : q.w[k] = [j \in DOMAIN kept[k] |-> s.w[k][kept[k][j]]])
  /\ Chk("ghost","labels, owners, identifiers and classification remain",\A k \in K : \A f \in {"g","t","o","c"} : q[f][k] = [j \in DOMAIN kept[k] |-> s[f][k][kept[k][j]]])
  /\ Chk("ghost","coordinates remain",q.V = [j \in DOMAIN kept[1] |-> s.V[kept[1][j]]])
  /\ Chk("ghost","edges remain",q.E = [j \in DOMAIN kept[2] |-> [i \in 1..2 |-> pos[1][s.E[kept[2][j]][i]]]])
  /\ Chk("ghost","faces remain",q.F = [j \in DOMAIN kept[3] |-> LET f == s.F[kept[3][j]] IN [i \in DOMAIN f |-> <<pos[2][f[i][1]],f[i][2]>>]])
  /\ Chk("ghost","regions remain",q.R = [j \in DOMAIN kept[4] |-> LET f == s.R[kept[4][j]] IN [i \in DOMAIN f |-> <<pos[3][f[i][1]],f[i][2]>>]])
  /\ Chk("ghost","values remain",Len(q.at) = Len(s.at) /\ \A j \in DOMAIN s.at :
        /\ q.at[j].n = s.at[j].n
        /\ Range(q.at[j].v) = {<<y[1],pos[y[1]+1][y[2]],y[3]>> : y \in {z \in Range(s.at[j].v) : z[2] \notin gone[z[1]+1]}})
  /\ Chk("ghost","sets remain",Len(q.st) = Len(s.st) /\ \A j \in DOMAIN s.st :
        {<<y[1],y[2]>> : y \in {z \in Range(q.st[j].e) : z[1] # 9}} = {<<y[1],pos[y[1]+1][y[2]]>> : y \in {z \in Range(s.st[j].e) : z[1] # 9 /\ z[2] \notin gone[z[1]+1]}})

(* ------------------------ parallel check (C32) ---------------------------- *)
\* what the checker is to accept: every ghost names as owner a process that has the entity as its own, and has its
\* identifier and coordinates; every own entity names its process
Consistent(Q) ==
  \A wh \in {Where(Q)} :
  /\ \A k \in K : \A p \in DOMAIN Q : \A i \in DOMAIN Q[p].w[k] :
       \A y \in {Q[p].w[k][i]} : \A o \in {Q[p].o[k][i]+1} :
       IF Q[p].t[k][i] # PGHOST THEN o = p
       ELSE /\ o # p /\ o \in At(wh,k,y) /\ Q[o].t[k][wh[k][o][y]] # PGHOST
            /\ Q[o].g[k][wh[k][o][y]] = Q[p].g[k][i]
            /\ (k = 1 => Q[o].V[wh[k][o][y]] = Q[p].V[i])
  /\ \A k \in K : \A p \in DOMAIN Q : NoDup([j \in DOMAIN Q[p].ol[k] |-> Q[p].g[k][Q[p].ol[k][j]]])
DoCheck(x) ==
  /\ Keep("check",x.P,{})
  /\ IF Consistent(P) THEN Chk("check","consistent mesh accepted",\A p \in DOMAIN x.r : x.r[p] = 1)
     ELSE Chk("check","inconsistent mesh rejected",\E p \in DOMAIN x.r : x.r[p] = 0)

(* -------------------------------- steps ----------------------------------- *)
Go(x) == P' = x.P /\ UNCHANGED <<A,D,C>>
Structure(tag1,tag2,tag3,x,d,strict,kinds) ==
  /\ \A p \in DOMAIN x.P : Piece(tag1,x.P[p],A,strict,kinds)
  /\ Divided(tag1,x.P,d,x.a.dim)
  /\ Labels(tag2,x.P,d,x.a.ring,strict)
  /\ Lists(tag2,x.P)
  /\ Gids(tag3,x.P) /\ LookOK(tag3,x.P)
Step(x) ==
  LET a == x.a IN
  CASE x.op = "init" -> /\ Chk("base","source readable",Readable(x.A))
                        /\ A' = x.A /\ P' = <<>> /\ D' = <<>> /\ C' = <<>>
    [] x.op = "dist" ->
        \E d \in {Derived(A,a.dim,a.part,a.n)} :
        /\ Chk("dist","reports success",\A p \in DOMAIN x.r : x.r[p] = 1)
        /\ Structure("dist","ghost","gid",x,d,TRUE,K)
        /\ IF a.attr = 1 THEN \A p \in DOMAIN x.P : AttsGiven("dist",x.P[p],A) /\ SetsGiven("dist",x.P[p],A)
           ELSE \A p \in DOMAIN x.P : Chk("dist","no attributes or sets asked for",x.P[p].st = <<>> /\ \A j \in DOMAIN x.P[p].at : x.P[p].at[j].t = 2)
        /\ (Has(a,"parent") => Chk("dist","whole mesh unchanged",\A f \in DOMAIN a.parent : a.parent[f] = A[f]))
        /\ A' = A /\ P' = x.P /\ D' = d /\ C' = [f \in {"ring","dim","n"} |-> a[f]]
    [] x.op = "weave" ->
        \E d \in {Derived(A,a.dim,a.part,a.n)} :
        /\ Chk("weave","reports success",\A p \in DOMAIN x.r : x.r[p] = 1)
        /\ Structure("weave","weave","weave",x,d,FALSE,K)
        /\ A' = A /\ P' = x.P /\ D' = d /\ C' = [f \in {"ring","dim","n"} |-> a[f]]
    [] x.op = "pieces" ->   \* a file read in pieces
        \E d \in {Derived(A,a.dim,a.part,a.n)} :
        /\ Chk("dist","reports success",\A p \in DOMAIN x.r : x.r[p] = 1)
        /\ Structure("dist","ghost","gid",x,d,FALSE,{ElK(a.dim)})
        /\ \A p \in DOMAIN x.P : FieldsRead("dist",x.P[p],A,d.own[Rk(p)],d,a.dim)
        /\ SidesRead("dist",x.P,A,a.dim)
        /\ Chk("gid","vertices and elements keep the numbers they have in the file",
               \A p \in DOMAIN x.P : \A k \in {1,ElK(a.dim)} : x.P[p].g[k] = x.P[p].w[k])
        /\ A' = A /\ P' = x.P /\ D' = d /\ C' = [f \in {"ring","dim","n"} |-> a[f]]
    [] x.op = "nemesis" ->  \* every process wrote its own file, and read it back
        /\ Chk("nem","reports success",\A p \in DOMAIN x.r : x.r[p] = 1)
        /\ Structure("nem","nem","nem",x,D,FALSE,{ElK(a.dim)})
        /\ \A p \in DOMAIN x.P : FieldsRead("nem",x.P[p],A,D.own[Rk(p)],D,a.dim)
        /\ SidesRead("nem",x.P,A,a.dim)
        /\ IF a.re = 1 THEN \A k \in {5} : Renumbered("nem",x.P,k)
           ELSE \A wh \in {Where(P)} : Chk("nem","vertices and elements keep their global identifiers",
               \A p \in DOMAIN x.P : \A k \in {1,ElK(a.dim)} : \A i \in DOMAIN x.P[p].g[k] : LET y == x.P[p].w[k][i] IN
                 \A q \in At(wh,k,y) : x.P[p].g[k][i] = P[q].g[k][wh[k][q][y]])
        /\ Go(x)
    [] x.op = "part" ->
        LET els == IF Len(A.R) > 0 THEN Len(A.R) ELSE Len(A.F) IN
        /\ Chk("part","reports success",\A p \in DOMAIN x.r : x.r[p] = 1)
        /\ Chk("part","mesh unchanged",\A f \in DOMAIN x.A : x.A[f] = A[f])
        /\ Chk("part","every element has one valid part",Len(a.part) = els /\ \A i \in DOMAIN a.part : a.part[i] \in 0..(a.n-1))
        /\ Chk("part","columns are kept together",\A i, j \in DOMAIN a.cols : a.cols[i] = a.cols[j] => a.part[i] = a.part[j])
        /\ Chk("part","more than one part",a.m < 4 /\ els >= 4*a.n => Cardinality(Range(a.part)) > 1)
        /\ UNCHANGED <<A,P,D,C>>
    [] x.op = "look" -> Keep("gid",x.P,{}) /\ LookOK("gid",x.P) /\ Go(x)
    [] x.op = "env" -> Keep("base",x.P,{"V","at","g","o","t"}) /\ Go(x)
    [] x.op = "renum" -> /\ Chk("gid","reports success",\A p \in DOMAIN x.r : x.r[p] = 1)
                         /\ Keep("gid",x.P,{"g","gl","ol"}) /\ Lists("gid",x.P)
                         /\ Chk("gid","other kinds keep their identifiers",\A p \in DOMAIN P : \A k \in K : (a.k # 5 /\ a.k # k-1) => x.P[p].g[k] = P[p].g[k])
                         /\ Renumbered("gid",x.P,a.k) /\ Gids("gid",x.P) /\ LookOK("gid",x.P) /\ Go(x)
    [] x.op = "update" -> DoUpdate(x) /\ Go(x)
    [] x.op = "gs" -> DoGS(x) /\ Go(x)
    [] x.op = "xchg" -> DoXchg(x) /\ Go(x)
    [] x.op = "coords" -> DoCoords(x) /\ Go(x)
    [] x.op = "check" -> DoCheck(x) /\ Go(x)
    [] x.op = "pdel" -> DoDel(x) /\ Lists("ghost",x.P) /\ Gids("ghost",x.P) /\ LookOK("ghost",x.P) /\ Go(x)
    [] OTHER -> FALSE
Init == l = 1 /\ A = <<>> /\ P = <<>> /\ D = <<>> /\ C = <<>>
Next == /\ l <= Len(Log)
        /\ Step(Log[l])
        /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
