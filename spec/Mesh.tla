-------------------------------- MODULE Mesh --------------------------------
(* Abstract state of one MSTK mesh, its derived adjacencies, its structural   *)
(* invariants and its editing actions.                                        *)
(*                                                                            *)
(* A mesh state is a record                                                   *)
(*   V : Seq of coordinate tuples          E : Seq of vertex sets {a,b}       *)
(*   F : Seq of cycles                     R : Seq of sets of <<face,dir>>    *)
(*   CV,CE,CF,CR : Seq of <<model dimension, model id>>                       *)
(*   X : [V,E,F,R |-> Seq of 0 (absent) | 1 (live) | 2 (deleted but kept)]    *)
(*   I : [V,E,F,R |-> Seq of local ids]                                       *)
(* indexed by stable entity numbers.  A cycle is a sequence of <<v,e>> pairs: *)
(* vertex v followed by the edge e leaving it, rotated so that its least pair *)
(* comes first; it is independent of how edges themselves are directed.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Alive(x) == {u \in DOMAIN x : x[u] = 1}
Kept(x)  == {u \in DOMAIN x : x[u] = 2}
Present(x) == {u \in DOMAIN x : x[u] # 0}
Get(s,u,d) == IF u \in DOMAIN s THEN s[u] ELSE d
Only(S) == CHOOSE x \in S : TRUE
Min2(a,b) == IF a <= b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SetToSeqAny(_)
SetToSeqAny(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeqAny(S \ {x})
NoDup(s) == Cardinality(Range(s)) = Len(s)

(* ------------------------------ cycles ----------------------------------- *)
Rot(c,k) == TLCEval([i \in 1..Len(c) |-> c[((i+k-2) % Len(c)) + 1]])         \* starts at position k
LtPair(p,q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
CanonCyc(c) == IF c = <<>> THEN c
               ELSE LET k == CHOOSE i \in DOMAIN c : \A j \in DOMAIN c : ~LtPair(c[j],c[i]) IN Rot(c,k)
CycV(c) == {c[i][1] : i \in DOMAIN c}
CycE(c) == {c[i][2] : i \in DOMAIN c}
VSeq(c) == TLCEval([i \in DOMAIN c |-> c[i][1]])
ESeq(c) == TLCEval([i \in DOMAIN c |-> c[i][2]])
\* the same cycle walked the other way: vertices reversed, each edge leaves its other end
RevCyc(c) == LET n == Len(c) IN TLCEval([i \in 1..n |-> <<c[((n-i+1) % n) + 1][1], c[n-i+1][2]>>])
MapCyc(c,fv(_),fe(_)) == [i \in DOMAIN c |-> <<fv(c[i][1]), fe(c[i][2])>>]
PosV(c,v) == CHOOSE i \in DOMAIN c : c[i][1] = v
PosE(c,e) == CHOOSE i \in DOMAIN c : c[i][2] = e
\* the part of a cycle from vertex a up to (not including) vertex b
Arc(c,a,b) == LET d == Rot(c,PosV(c,a)) k == PosV(d,b) IN SubSeq(d,1,k-1)
Flat(ss) == LET RECURSIVE f(_) f(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o f(i+1) IN f(1)

(* -------------------- abstraction of a logged state ---------------------- *)
\* raw: E as <<v0,v1>>, F as Seq of <<e,dir>>, R as Seq of <<f,dir>>
RawStart(E,p) == IF p[2] = 1 THEN E[p[1]][1] ELSE E[p[1]][2]
RawEnd(E,p)   == IF p[2] = 1 THEN E[p[1]][2] ELSE E[p[1]][1]
RawCyc(E,f) == TLCEval([i \in DOMAIN f |-> <<RawStart(E,f[i]), f[i][1]>>])
\* a logged face is readable as a cycle: known edges and heads meet tails
RawFaceOK(E,f) == /\ Len(f) >= 1
                  /\ \A i \in DOMAIN f : f[i][1] \in DOMAIN E /\ E[f[i][1]] # <<>> /\ f[i][2] \in {0,1}
                  /\ \A i \in DOMAIN f : RawEnd(E,f[i]) = RawStart(E,f[(i % Len(f))+1])
RawOK(s) == /\ \A e \in DOMAIN s.E : s.E[e] # <<>> => (Len(s.E[e]) = 2 /\ \A i \in {1,2} : s.E[e][i] \in DOMAIN s.V)
            /\ \A f \in DOMAIN s.F : s.XF[f] = 1 => RawFaceOK(s.E,s.F[f])
            /\ \A r \in DOMAIN s.R : s.XR[r] = 1 => (\A i \in DOMAIN s.R[r] : s.R[r][i][1] \in DOMAIN s.F /\ s.R[r][i][2] \in {0,1})
                                                  /\ NoDup(s.R[r])
FaceReadable(s,f) == s.F[f] # <<>> /\ \A i \in DOMAIN s.F[f] : s.F[f][i][1] > 0 /\ s.F[f][i][1] \in DOMAIN s.E
                       /\ s.E[s.F[f][i][1]] # <<>> /\ s.F[f][i][2] \in {0,1}
Abs(s) == [V |-> s.V,
           E |-> TLCEval([e \in DOMAIN s.E |-> Range(s.E[e])]),
           F |-> TLCEval([f \in DOMAIN s.F |-> IF FaceReadable(s,f) THEN CanonCyc(RawCyc(s.E,s.F[f])) ELSE <<>>]),
           R |-> TLCEval([r \in DOMAIN s.R |-> Range(s.R[r])]),
           CV |-> s.CV, CE |-> s.CE, CF |-> s.CF, CR |-> s.CR,
           X |-> [V |-> s.XV, E |-> s.XE, F |-> s.XF, R |-> s.XR],
           I |-> [V |-> s.IV, E |-> s.IE, F |-> s.IF, R |-> s.IR]]

(* -------------------------- derived adjacency ---------------------------- *)
LV(M) == Alive(M.X.V)  LE(M) == Alive(M.X.E)  LF(M) == Alive(M.X.F)  LR(M) == Alive(M.X.R)
FV(M,f) == CycV(M.F[f])
FE(M,f) == CycE(M.F[f])
RF(M,r) == {p[1] : p \in M.R[r]}
VE(M,v) == {e \in LE(M) : v \in M.E[e]}
VV(M,v) == UNION {M.E[e] : e \in VE(M,v)} \ {v}
EF(M,e) == {f \in LF(M) : e \in FE(M,f)}
VF(M,v) == {f \in LF(M) : v \in FV(M,f)}
FR(M,f) == {r \in LR(M) : f \in RF(M,r)}
RE(M,r) == UNION {FE(M,f) : f \in RF(M,r)}
RV(M,r) == UNION {FV(M,f) : f \in RF(M,r)}
ER(M,e) == {r \in LR(M) : e \in RE(M,r)}
VR(M,v) == {r \in LR(M) : v \in RV(M,r)}
\* all derived relations of a state at once (evaluated once per state)
Derive(M) ==
  LET fv == TLCEval([f \in LF(M) |-> FV(M,f)])
      fe == TLCEval([f \in LF(M) |-> FE(M,f)])
      rf == TLCEval([r \in LR(M) |-> RF(M,r)])
      rv == TLCEval([r \in LR(M) |-> UNION {fv[f] : f \in rf[r]}])
      re == TLCEval([r \in LR(M) |-> UNION {fe[f] : f \in rf[r]}])
      ve == TLCEval([v \in LV(M) |-> {e \in LE(M) : v \in M.E[e]}])
      ef == TLCEval([e \in LE(M) |-> {f \in LF(M) : e \in fe[f]}])
      fr == TLCEval([f \in LF(M) |-> {r \in LR(M) : f \in rf[r]}])
  IN [FV |-> fv, FE |-> fe, RF |-> rf, RV |-> rv, RE |-> re, VE |-> ve, EF |-> ef, FR |-> fr,
      VF |-> TLCEval([v \in LV(M) |-> {f \in LF(M) : v \in fv[f]}]),
      VR |-> TLCEval([v \in LV(M) |-> {r \in LR(M) : v \in rv[r]}]),
      ER |-> TLCEval([e \in LE(M) |-> {r \in LR(M) : e \in re[r]}])]

(* ---------------------------- invariants --------------------------------- *)
EdgesOK(M) == \A e \in LE(M) : Cardinality(M.E[e]) = 2 /\ M.E[e] \subseteq LV(M)
FacesOK(M) == \A f \in LF(M) : LET c == M.F[f] IN
    /\ Len(c) >= 3
    /\ CycE(c) \subseteq LE(M)
    /\ \A i \in DOMAIN c : M.E[c[i][2]] = {c[i][1], c[(i % Len(c))+1][1]}
SimpleFaces(M) == \A f \in LF(M) : Cardinality(FV(M,f)) = Len(M.F[f]) /\ Cardinality(FE(M,f)) = Len(M.F[f])
RegionsOK(M) == \A r \in LR(M) : RF(M,r) \subseteq LF(M) /\ Cardinality(RF(M,r)) = Cardinality(M.R[r])
\* each face bounds at most one region on each side
SidesOK(M) == \A f \in LF(M) : \A d \in {0,1} : Cardinality({r \in LR(M) : <<f,d>> \in M.R[r]}) <= 1
\* the shell of a region is closed and coherently oriented: walking each face so that it points out of the
\* region, every edge of the shell is walked equally often in both directions
DirCyc(M,p) == IF p[2] = 1 THEN M.F[p[1]] ELSE RevCyc(M.F[p[1]])
ClosedRegion(M,r) ==
  LET uses == UNION {{<<p[1], DirCyc(M,p)[i]>> : i \in DOMAIN M.F[p[1]]} : p \in M.R[r]}
  IN \A e \in RE(M,r) : \A v \in M.E[e] :
        Cardinality({u \in uses : u[2] = <<v,e>>}) = Cardinality({u \in uses : u[2][2] = e /\ u[2][1] # v})
Closed(M) == \A r \in LR(M) : ClosedRegion(M,r)
\* no two live edges (faces, regions) are made of the same lower entities
NoTwinEdges(M) == Cardinality({M.E[e] : e \in LE(M)}) = Cardinality(LE(M))
NoTwinFaces(M) == Cardinality({FE(M,f) : f \in LF(M)}) = Cardinality(LF(M))
WF(M) == EdgesOK(M) /\ FacesOK(M) /\ RegionsOK(M) /\ SidesOK(M)
Euler(M) == Cardinality(LV(M)) - Cardinality(LE(M)) + Cardinality(LF(M)) - Cardinality(LR(M))
\* adjacent faces of one surface walk their common edge in opposite directions
OrientedSurface(M) == \A e \in LE(M) : LET fs == EF(M,e) IN
      Cardinality(fs) = 2 => Cardinality({M.F[f][PosE(M.F[f],e)][1] : f \in fs}) = 2
\* a run of edges of a face from vertex a to vertex b replaced by another path from a to b
ReplaceRun(c,a,b,path) == CanonCyc(path \o Arc(c,b,a))
(* -------------------------- standard elements ----------------------------- *)
\* outward faces of the documented vertex numberings (numbers start at 1 here)
StdFaces == (4 :> << <<1,3,2>>,<<1,2,4>>,<<2,3,4>>,<<1,4,3>> >>)
         @@ (5 :> << <<1,4,3,2>>,<<1,2,5>>,<<2,3,5>>,<<3,4,5>>,<<4,1,5>> >>)
         @@ (6 :> << <<1,3,2>>,<<4,5,6>>,<<1,2,5,4>>,<<2,3,6,5>>,<<3,1,4,6>> >>)
         @@ (8 :> << <<1,4,3,2>>,<<5,6,7,8>>,<<1,2,6,5>>,<<2,3,7,6>>,<<3,4,8,7>>,<<4,1,5,8>> >>)
StdOf(vs) == [i \in DOMAIN StdFaces[Len(vs)] |-> [j \in DOMAIN StdFaces[Len(vs)][i] |-> vs[StdFaces[Len(vs)][i][j]]]]
SameLoop(a,b) == Len(a) = Len(b) /\ \E k \in DOMAIN b : Rot(b,k) = a
\* the vertex loop of a face use, walked so that it points out of the region
UseLoop(M,p) == VSeq(DirCyc(M,p))
\* 1 tetrahedron, 2 pyramid, 3 prism, 4 hexahedron, 5 polyhedron, 0 not a solid
ElemType(M,r) ==
  LET fs == RF(M,r)  nf == Cardinality(fs)
      k(n) == Cardinality({f \in fs : Len(M.F[f]) = n})
      plain == \A v \in RV(M,r) : Cardinality({f \in fs : v \in FV(M,f)}) >= 3      \* no vertex in the middle of an edge
  IN IF nf <= 3 THEN 0
     ELSE IF nf = 4 /\ k(3) = 4 THEN 1
     ELSE IF nf = 5 /\ k(4) = 1 /\ k(3) = 4 /\ plain THEN 2
     ELSE IF nf = 5 /\ k(4) = 3 /\ k(3) = 2 /\ plain THEN 3
     ELSE IF nf = 6 /\ k(4) = 6 /\ plain THEN 4 ELSE 5
IdsUnique(I,X) == Cardinality({I[u] : u \in Alive(X)}) = Cardinality(Alive(X)) /\ \A u \in Alive(X) : I[u] > 0
=============================================================================
