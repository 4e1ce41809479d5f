-------------------------------- MODULE Dist ---------------------------------
(* What a partition of a mesh means: which process holds which entity, who owns *)
(* it, and what a copy of it is called.  Kinds are numbered 1..4 (vertices,      *)
(* edges, faces, regions); processes 0..n-1.                                     *)
EXTENDS Mesh, TLCExt
K == 1..4
PINTERIOR == 0  POVERLAP == 1  PGHOST == 3

(* ------------------- what follows from the global mesh -------------------- *)
\* Clos[k][x] : entities of kind k in the closure of element x.  dim = 2 : elements are faces
FaceE(s,f) == {s.F[f][i][1] : i \in DOMAIN s.F[f]}
Derived(s,dim,part,n) ==
  LET els == IF dim = 3 THEN DOMAIN s.R ELSE DOMAIN s.F
      cf == TLCEval([x \in els |-> IF dim = 3 THEN {s.R[x][i][1] : i \in DOMAIN s.R[x]} ELSE {x}])
      ce == TLCEval([x \in els |-> UNION {FaceE(s,f) : f \in cf[x]}])
      cv == TLCEval([x \in els |-> UNION {Range(s.E[e]) : e \in ce[x]}])
      cl == <<cv,ce,cf,IF dim = 3 THEN [x \in els |-> {x}] ELSE [x \in els |-> {}]>>
      num == <<Len(s.V),Len(s.E),Len(s.F),Len(s.R)>>
      users == TLCEval([k \in K |-> TLCEval([y \in 1..num[k] |-> {x \in els : y \in cl[k][x]}])])
  IN [els |-> els, cl |-> TLCEval(cl), num |-> num, users |-> users,
      own |-> TLCEval([p \in 0..(n-1) |-> {x \in els : part[x] = p}]),
      parts |-> TLCEval([k \in K |-> TLCEval([y \in 1..num[k] |-> {part[x] : x \in users[k][y]}])]),
      nbr |-> TLCEval([x \in els |-> UNION {users[1][v] : v \in cv[x]}])]
ClosOf(d,S,k) == UNION {d.cl[k][x] : x \in S}
\* elements a process must hold : its own, and with a ghost layer those sharing a vertex with one of its own
Held(d,p,ring) == IF ring = 0 THEN d.own[p] ELSE d.own[p] \cup UNION {d.nbr[x] : x \in d.own[p]}
ElK(dim) == IF dim = 3 THEN 4 ELSE 3
OwnerOf(d,k,y) == MinOf(d.parts[k][y])
=============================================================================
