-------------------------------- MODULE DistMC -------------------------------
(* Exhaustive exploration of distribution: every partition of small meshes onto *)
(* n processes, with and without a ghost layer; in each, what the specification *)
(* demands of labels, owners and lists (Dist) is shown to be consistent, and the *)
(* exchange of ghost values - blocking messages between every pair of processes, *)
(* in every interleaving - is shown to terminate and to leave every copy with    *)
(* its owner's value.  Every partition is printed as  <<"PATH", json>>  for the  *)
(* harness, which distributes (or weaves) a real mesh in exactly that way.       *)
EXTENDS Dist, Json
CONSTANTS Cases,     \* set of numbers 10*grid + number of processes
          Rings,     \* subset of {0,1}
          Proto,     \* 1: also explore the exchange of ghost values
          Emit
VARIABLES g, part, ring, kind, pc, val, moved
vars == <<g, part, ring, kind, pc, val, moved>>

(* --------------------------------- meshes --------------------------------- *)
\* element corners; a quadrilateral or triangle is a cycle of vertices, a hexahedron or tetrahedron a set of faces
Quads(nx,ny) == [i \in 1..(nx*ny) |-> LET x == (i-1) % nx  y == (i-1) \div nx  v == y*(nx+1)+x+1 IN <<v,v+1,v+nx+2,v+nx+1>>]
HexF(v,a,b) == << <<v,v+a,v+a+1,v+1>>, <<v+b,v+b+1,v+b+a+1,v+b+a>>, <<v,v+1,v+b+1,v+b>>, <<v+1,v+a+1,v+b+a+1,v+b+1>>, <<v+a+1,v+a,v+b+a,v+b+a+1>>, <<v+a,v,v+b,v+b+a>> >>
Hexes(nx,ny,nz) == [i \in 1..(nx*ny*nz) |->
   LET x == (i-1) % nx  y == ((i-1) \div nx) % ny  z == (i-1) \div (nx*ny) IN HexF(z*(nx+1)*(ny+1)+y*(nx+1)+x+1,nx+1,(nx+1)*(ny+1))]
TetF(a,b,c,d) == << <<a,c,b>>, <<a,b,d>>, <<b,c,d>>, <<c,a,d>> >>
Grids == <<
  [dim |-> 2, n |-> 9,  c |-> Quads(2,2)],
  [dim |-> 2, n |-> 12, c |-> Quads(3,2)],
  [dim |-> 2, n |-> 8,  c |-> Quads(3,1)],
  [dim |-> 2, n |-> 16, c |-> Quads(3,3)],
  [dim |-> 3, n |-> 18, c |-> Hexes(2,2,1)],
  [dim |-> 3, n |-> 12, c |-> Hexes(2,1,1)],
  [dim |-> 3, n |-> 27, c |-> Hexes(2,2,2)],
  [dim |-> 2, n |-> 7,  c |-> [i \in 1..6 |-> <<i,(i % 6)+1,7>>]],                     \* fan around a vertex
  [dim |-> 3, n |-> 6,  c |-> [i \in 1..4 |-> TetF(1,2,i+2,((i % 4)+1)+2)]],           \* tetrahedra around an edge
  [dim |-> 2, n |-> 10, c |-> Quads(4,1)] >>
Sides(c) == {{c[i],c[(i % Len(c))+1]} : i \in DOMAIN c}
Build(G) ==
  LET cyc == IF G.dim = 2 THEN {G.c[i] : i \in DOMAIN G.c} ELSE UNION {Range(G.c[i]) : i \in DOMAIN G.c}
      fs == TLCEval(IF G.dim = 2 THEN G.c ELSE SetToSeqAny({CHOOSE c \in cyc : Range(c) = S : S \in {Range(c) : c \in cyc}}))
      es == TLCEval(SetToSeqAny(UNION {Sides(fs[f]) : f \in DOMAIN fs}))
      num(s) == CHOOSE e \in DOMAIN es : es[e] = s
      fno(S) == CHOOSE f \in DOMAIN fs : Range(fs[f]) = S
  IN [V |-> [v \in 1..G.n |-> <<v>>], E |-> TLCEval([e \in DOMAIN es |-> SetToSeqAny(es[e])]),
      F |-> TLCEval([f \in DOMAIN fs |-> [i \in DOMAIN fs[f] |-> <<num({fs[f][i],fs[f][(i % Len(fs[f]))+1]}),1>>]]),
      R |-> IF G.dim = 2 THEN <<>> ELSE TLCEval([r \in DOMAIN G.c |-> [i \in DOMAIN G.c[r] |-> <<fno(Range(G.c[r][i])),1>>]])]
Whole == TLCEval([i \in DOMAIN Grids |-> Build(Grids[i])])

(* ------------------- the mesh of every process (as specified) ------------- *)
n == g[2]  dim == Grids[g[1]].dim  P == 0..(n-1)
D == Derived(Whole[g[1]],dim,part,n)
\* what follows from the state : H[p][k] entities held, own[k][y] owner, lab[p][k] label of each
World == LET d == D
             H == TLCEval([p \in P |-> [k \in K |-> ClosOf(d,Held(d,p,ring),k)]])
             own == TLCEval([k \in K |-> [y \in 1..d.num[k] |-> OwnerOf(d,k,y)]])
             lab == TLCEval([p \in P |-> [k \in K |-> [y \in H[p][k] |->
                 IF own[k][y] # p THEN PGHOST ELSE IF \E q \in P \ {p} : y \in H[q][k] THEN POVERLAP ELSE PINTERIOR]]])
         IN [d |-> d, H |-> H, own |-> own, lab |-> lab]
\* process p sends to q : it has entities of this kind that are ghosts there
Ghosts(w,p,k) == {y \in w.H[p][k] : w.lab[p][k][y] = PGHOST}
From(w,p,q,k) == {y \in Ghosts(w,q,k) : w.own[k][y] = p}
Sends(w,p,q,k) == p # q /\ From(w,p,q,k) # {}

(* ---------------------- exchange of ghost values -------------------------- *)
\* every process visits the others in order; with a higher one it sends before it receives, with a lower one it
\* receives before it sends.  Messages are blocking (a send waits for its receive).
\* pc[p] = <<other process, 1st or 2nd half>>, <<n,1>> when through
First(p,q) == IF p < q THEN "send" ELSE "recv"
Second(p,q) == IF p < q THEN "recv" ELSE "send"
Doing(p) == IF pc[p][1] = n \/ pc[p][1] = p THEN "skip" ELSE IF pc[p][2] = 1 THEN First(p,pc[p][1]) ELSE Second(p,pc[p][1])
Needed(w,p) == LET q == pc[p][1] IN CASE Doing(p) = "send" -> Sends(w,p,q,kind) [] Doing(p) = "recv" -> Sends(w,q,p,kind) [] OTHER -> FALSE
Adv(x,p) == IF x[1] = p \/ x[2] = 2 THEN <<x[1]+1,1>> ELSE <<x[1],2>>
Through == \A p \in P : pc[p][1] = n
Skip(w) == \E p \in P : /\ pc[p][1] < n /\ ~Needed(w,p)
                        /\ pc' = [pc EXCEPT ![p] = Adv(@,p)] /\ UNCHANGED <<val,moved>>
Meet(w) == \E p, q \in P : /\ p # q /\ pc[p][1] = q /\ pc[q][1] = p
                           /\ Doing(p) = "send" /\ Doing(q) = "recv" /\ Needed(w,p)
                           /\ pc' = [pc EXCEPT ![p] = Adv(@,p), ![q] = Adv(@,q)]
                           \* the message holds all overlap values of p, not only those that q needs
                           /\ val' = [val EXCEPT ![q] = [y \in DOMAIN @ |-> IF y \in From(w,p,q,kind) THEN val[p][y] ELSE @[y]]]
                           /\ moved' = moved \cup {<<p,q>>}
Surj(m,k) == {f \in [1..m -> 0..(k-1)] : {f[i] : i \in 1..m} = 0..(k-1)}
Init == /\ g \in {<<c \div 10, c % 10>> : c \in Cases} /\ part \in Surj(Len(Grids[g[1]].c),g[2]) /\ ring \in Rings
        /\ IF Proto = 1 THEN kind \in {k \in K : k <= Grids[g[1]].dim+1} ELSE kind = 0
        /\ pc = [p \in 0..(g[2]-1) |-> <<0,1>>]
        /\ moved = {}
        /\ \E w \in {World} : val = IF Proto = 0 THEN <<>> ELSE [p \in P |-> [y \in w.H[p][kind] |-> IF w.own[kind][y] = p THEN <<p,y>> ELSE <<n,y>>]]
        /\ (Emit = 0 \/ kind > 1 \/ PrintT(<<"PATH", ToJson([g |-> g[1], n |-> g[2], part |-> part, ring |-> ring])>>))
Next == /\ Proto = 1 /\ ~Through /\ UNCHANGED <<g,part,ring,kind>>
        /\ \E w \in {World} : Skip(w) \/ Meet(w)

(* ------------------------------- invariants ------------------------------- *)
AtStart == \A p \in P : pc[p] = <<0,1>>
Static == AtStart => \E w \in {World} :
  \* every entity belongs to some element, is held by its owner and owned by one process that uses it
  /\ \A k \in K : \A y \in 1..w.d.num[k] : w.own[k][y] \in w.d.parts[k][y] /\ y \in w.H[w.own[k][y]][k]
  \* owned sets divide the mesh
  /\ \A k \in K : \A y \in 1..w.d.num[k] : Cardinality({p \in P : y \in w.H[p][k] /\ w.lab[p][k][y] # PGHOST}) = 1
  \* ghosts are overlap entities of their owner; overlap entities are ghosts somewhere
  /\ \A p \in P : \A k \in K : \A y \in w.H[p][k] :
       /\ (w.lab[p][k][y] = PGHOST => w.lab[w.own[k][y]][k][y] = POVERLAP)
       /\ (w.lab[p][k][y] = POVERLAP => \E q \in P : q # p /\ y \in w.H[q][k] /\ w.lab[q][k][y] = PGHOST)
  \* a process has all elements around every vertex of its own elements
  /\ ring = 1 => \A p \in P : \A x \in w.d.own[p] : \A v \in w.d.cl[1][x] : \A e \in w.d.users[1][v] : e \in w.H[p][ElK(dim)]
  \* holding is closed : the closure of what is held is held
  /\ \A p \in P : \A x \in w.H[p][ElK(dim)] : \A k \in K : w.d.cl[k][x] \subseteq w.H[p][k]
  \* without a ghost layer two processes share only entities between their elements
  /\ ring = 0 => \A p, q \in P : p < q => \A k \in K : w.H[p][k] \cap w.H[q][k] = {y \in 1..w.d.num[k] : {p,q} \subseteq w.d.parts[k][y]}
\* who is sent to also expects it; neighbors are mutual when there is a ghost layer of elements
Mutual == AtStart /\ ring = 1 => \E w \in {World} : \A p, q \in P : Sends(w,p,q,ElK(dim)) = Sends(w,q,p,ElK(dim))
NoDeadlock == Proto = 1 /\ ~Through => \E w \in {World} :
  \/ \E p \in P : pc[p][1] < n /\ ~Needed(w,p)
  \/ \E p, q \in P : p # q /\ pc[p][1] = q /\ pc[q][1] = p /\ Doing(p) = "send" /\ Doing(q) = "recv" /\ Needed(w,p)
Delivered == Proto = 1 /\ Through => \E w \in {World} :
  /\ \A p \in P : \A y \in w.H[p][kind] : val[p][y] = <<w.own[kind][y],y>>
  /\ moved = {<<p,q>> \in P \X P : Sends(w,p,q,kind)}
=============================================================================
