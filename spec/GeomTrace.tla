------------------------------ MODULE GeomTrace ------------------------------
(* Geometric measures on lattices (C34).  The state is the set of edges and faces *)
(* (as vertex pairs and loops) and the position of every vertex, an integer point; *)
(* the real coordinates are these times a power of two plus an offset.  Lengths,   *)
(* angles and condition numbers are irrational in general, but their squares are    *)
(* ratios of integers: the library's answer, times K and rounded, must be the only  *)
(* integer (up to 1) whose square fits.                                             *)
EXTENDS Mesh, Json, IOUtils, TLCExt
Log  == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tags == Range(ndJsonDeserialize(IOEnv.TAGS)[1].tags)
Cont == "CONT" \in DOMAIN IOEnv
VARIABLES l, m         \* m : [E, F, X]
vars == <<l, m>>
Chk(tag,name,cond) == IF tag \notin Tags THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECT", l, tag, name>>) /\ Cont
Nil == [E |-> <<>>, F |-> <<>>, R |-> <<>>, X |-> <<>>]
(* products of numbers below 10^8, as three digits to base 10^4 *)
Mag(x) == IF x < 0 THEN -x ELSE x
B == 10000
Mul(a,b) == LET a1 == a \div B a0 == a % B b1 == b \div B b0 == b % B
                lo == a0*b0 mi == a1*b0 + a0*b1 + (lo \div B) hi == a1*b1 + (mi \div B) IN <<hi, mi % B, lo % B>>
Leq(p,q) == IF p[1] # q[1] THEN p[1] < q[1] ELSE IF p[2] # q[2] THEN p[2] < q[2] ELSE p[3] <= q[3]
\* k is K times the root of num/den (to within 1), for non-negative num and positive den; k,K below 10^4
IsRoot(k,K,num,den) == /\ k >= 0
                       /\ (k = 0 \/ Leq(Mul((k-1)*(k-1),den),Mul(K*K,num)))
                       /\ Leq(Mul(K*K,num),Mul((k+1)*(k+1),den))
Sub(p,q) == <<p[1]-q[1],p[2]-q[2],p[3]-q[3]>>
Dot(p,q) == p[1]*q[1]+p[2]*q[2]+p[3]*q[3]
Cross(p,q) == <<p[2]*q[3]-p[3]*q[2],p[3]*q[1]-p[1]*q[3],p[1]*q[2]-p[2]*q[1]>>
Sq(p) == Dot(p,p)
Zero == <<0,0,0>>
\* k is K times the cosine of the angle between u and v, both non-zero
IsCos(k,K,u,v) == LET d == Dot(u,v) n == Sq(u)*Sq(v) IN
   /\ IF d > 0 THEN k >= 0 ELSE IF d < 0 THEN k <= 0 ELSE TRUE
   /\ IsRoot(Mag(k),K,d*d,n)
Dir(X,e,o) == Sub(X[IF e[1] = o THEN e[2] ELSE e[1]],X[o])
\* the half-plane of face t at its edge {a,b}: the direction from the edge into the face, as (b-a) x (w-a); Zero when the
\* face does not lie, with all of its vertices, in one half-plane
Half(X,t,a,b) == LET d == Sub(X[b],X[a])
                     ws == {Cross(d,Sub(X[t[i]],X[a])) : i \in {j \in DOMAIN t : t[j] \notin {a,b}}}
                     nz == ws \ {Zero}
                 IN IF nz = {} THEN Zero ELSE LET w == CHOOSE x \in nz : TRUE IN
                    IF \A x \in nz : Cross(w,x) = Zero /\ Dot(w,x) > 0 THEN w ELSE Zero
Sides(t) == {{t[i],t[(i % Len(t))+1]} : i \in DOMAIN t}
DihedralIs(k,M,f,g,e) == LET a == MinOf(e) b == MaxOf(e) h1 == Half(M.X,M.F[f],a,b) h2 == Half(M.X,M.F[g],a,b) IN
   h1 = Zero \/ h2 = Zero \/ IsCos(k,5000,h1,h2)
EdgeSet(M,e) == {M.E[e][1],M.E[e][2]}
Measures(M,q) ==
  /\ Chk("geom","coordinates are the ones set",q.X = M.X)
  /\ \A i \in DOMAIN q.len : \A d \in {Sub(M.X[M.E[i][2]],M.X[M.E[i][1]])} :
       /\ Chk("geom","edge vector",q.vec[i] = d)
       /\ Chk("geom","squared length",q.len[i][1] = Sq(d))
       /\ Chk("geom","length",Sq(d) = 0 \/ IsRoot(q.len[i][2],1000,Sq(d),1))
  /\ \A i \in DOMAIN q.fco : Chk("geom","coordinates of a face",q.fco[i] = [j \in DOMAIN M.F[i] |-> M.X[M.F[i][j]]])
  /\ \A i \in DOMAIN q.rco : Chk("geom","coordinates of a region",q.rco[i] = [j \in DOMAIN M.R[i] |-> M.X[M.R[i][j]]])
  /\ \A i \in DOMAIN q.ang : \A e \in {M.E[q.ang[i][1]]} : \A g \in {M.E[q.ang[i][2]]} : \A c \in {Range(e) \cap Range(g)} :
       Chk("geom","angle between edges",
           IF c = {} THEN q.ang[i][3] = 0
           ELSE \E o \in c : \E u \in {Dir(M.X,e,o)} : \E v \in {Dir(M.X,g,o)} : u = Zero \/ v = Zero \/ IsCos(q.ang[i][3],5000,u,v))
  /\ \A i \in DOMAIN q.dih : \A f \in {q.dih[i][1]} : \A g \in {q.dih[i][2]} : \A e \in {q.dih[i][3]} : \A k \in {q.dih[i][4]} :
       Chk("geom","dihedral angle",
           IF e # 0 THEN DihedralIs(k,M,f,g,EdgeSet(M,e))
           ELSE \E c \in {Sides(M.F[f]) \cap Sides(M.F[g])} : IF c = {} THEN k = 0 ELSE \E s \in c : DihedralIs(k,M,f,g,s))
  /\ \A i \in DOMAIN q.cond : \A t \in {M.F[i]} : \A n \in {Len(t)} :
       /\ Chk("geom","one condition number per corner",Len(q.cond[i]) = n)
       /\ \A j \in DOMAIN t : \A u \in {Sub(M.X[t[(j % n)+1]],M.X[t[j]])} : \A v \in {Sub(M.X[t[((j+n-2) % n)+1]],M.X[t[j]])} :
            \A c \in {Cross(u,v)} :
            Chk("geom","condition number of a corner",c = Zero \/ IsRoot(q.cond[i][j],100,(Sq(u)+Sq(v))*(Sq(u)+Sq(v)),4*Sq(c)))
Moved(X,ch) == [v \in DOMAIN X |-> IF \E i \in DOMAIN ch : ch[i][1] = v THEN LET i == CHOOSE j \in DOMAIN ch : ch[j][1] = v IN ch[i][2] ELSE X[v]]
Step(x) ==
  CASE x.op = "mesh" -> m' = [E |-> x.a.E, F |-> x.a.F, R |-> x.a.R, X |-> x.a.X] /\ Measures(m',x.q)
    [] x.op = "move" -> m' = [m EXCEPT !.X = TLCEval(Moved(@,x.a))] /\ Measures(m',x.q)
    [] x.op = "look" -> m' = m /\ Measures(m,x.q)
Init == l = 1 /\ m = Nil
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l+1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter > Len(Log)
=============================================================================
