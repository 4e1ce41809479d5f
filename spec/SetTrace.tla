------------------------------- MODULE SetTrace -----------------------------
(* Entity sets of a mesh (property C09).                                       *)
(* State: S - handle -> [n : name, d : dimension, e : sequence of entities]    *)
(*        O - handles of the sets the mesh holds, in order                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, TLCExt
Log  == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Cont == "CONT" \in DOMAIN IOEnv
VARIABLES l, S, O
vars == <<l, S, O>>
Range(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Range(s)) = Len(s)
Chk(name,cond) == IF cond THEN TRUE ELSE PrintT(<<"REJECT", l, "set", name>>) /\ Cont
Pos(s,v)  == IF \E i \in DOMAIN s : s[i] = v THEN CHOOSE i \in DOMAIN s : s[i] = v /\ \A j \in 1..(i-1) : s[j] # v ELSE 0
Del(s,i)  == SubSeq(s,1,i-1) \o SubSeq(s,i+1,Len(s))
Ins(s,i,v) == SubSeq(s,1,i-1) \o <<v>> \o SubSeq(s,i,Len(s))
B(c) == IF c THEN 1 ELSE 0
Effect(s,x) ==
  LET a == x.a IN
  CASE x.op = "add"      -> Append(s,a.v)
    [] x.op = "chknadd"  -> IF Pos(s,a.v) > 0 THEN s ELSE Append(s,a.v)
    [] x.op = "insert"   -> IF a.b = 0 THEN Append(s,a.v) ELSE IF Pos(s,a.b) = 0 THEN s ELSE Ins(s,Pos(s,a.b),a.v)
    [] x.op = "inserti"  -> Ins(s,a.i+1,a.v)
    [] x.op = "rem"      -> IF Pos(s,a.v) = 0 THEN s ELSE Del(s,Pos(s,a.v))
    [] x.op = "remi"     -> IF a.i < Len(s) THEN Del(s,a.i+1) ELSE s
    [] x.op = "replace"  -> IF Pos(s,a.v) = 0 THEN s ELSE [s EXCEPT ![Pos(s,a.v)] = a.w]
    [] x.op = "replacei" -> [s EXCEPT ![a.i+1] = a.w]
    [] OTHER -> s
Ret(s,x) ==
  LET a == x.a IN
  CASE x.op \in {"rem","replace"} -> B(Pos(s,a.v) > 0)
    [] x.op = "remi" -> B(a.i < Len(s))
    [] x.op = "replacei" -> 1
    [] OTHER -> a.h              \* operations that hand back the set
\* the surviving entity k takes the place of d in every set that held d
Subst1(s,d,k) == IF Pos(s,d) = 0 THEN s ELSE IF Pos(s,k) > 0 THEN Del(s,Pos(s,d)) ELSE [s EXCEPT ![Pos(s,d)] = k]
RECURSIVE SubstAll(_,_)
SubstAll(s,ps) == IF ps = <<>> THEN s ELSE SubstAll(Subst1(s,Head(ps)[1],Head(ps)[2]),Tail(ps))
Dim2(a,b) == IF a = b THEN a ELSE 5
NewSet(h,nm,d,e) == S' = (h :> [n |-> nm, d |-> d, e |-> e]) @@ S /\ O' = Append(O,h)
Algebra(x) ==
  LET p == S[x.a.p] q == S[x.a.q]
      m == CASE x.op = "union" -> Range(p.e) \cup Range(q.e) [] x.op = "intersect" -> Range(p.e) \cap Range(q.e) [] OTHER -> Range(p.e) \ Range(q.e)
  IN IF x.op # "union" /\ m = {} THEN Chk("empty result is no set",x.r = 0) /\ UNCHANGED <<S,O>>
     ELSE /\ Chk("result is a set",x.r # 0)
          /\ Chk("members of the result",Range(x.a.e) = m /\ NoDup(x.a.e))
          /\ NewSet(x.r,x.a.n,IF x.op = "subtract" THEN p.d ELSE Dim2(p.d,q.d),x.a.e)
Step(x) ==
  LET a == x.a IN
  CASE x.op = "reset"  -> S' = <<>> /\ O' = <<>>
    [] x.op = "new"    -> NewSet(a.h,a.n,a.d,<<>>)
    [] x.op = "copy"   -> NewSet(a.h,S[a.p].n,S[a.p].d,S[a.p].e)
    [] x.op = "delete" -> S' = [h \in DOMAIN S \ {a.h} |-> S[h]] /\ O' = SelectSeq(O,LAMBDA h : h # a.h)
    [] x.op = "rename" -> S' = [S EXCEPT ![a.h].n = a.n] /\ O' = O
    [] x.op \in {"union","intersect","subtract"} -> Algebra(x)
    [] x.op = "subst"  -> S' = [h \in DOMAIN S |-> [S[h] EXCEPT !.e = SubstAll(@,a.pairs)]] /\ O' = O
    [] x.op = "cat"    -> Chk("return value",x.r = a.h) /\ S' = [S EXCEPT ![a.h].e = @ \o S[a.g].e] /\ O' = O
    [] x.op = "noop"   -> UNCHANGED <<S,O>>
    [] OTHER -> /\ Chk("return value",x.r = Ret(S[a.h].e,x))
                /\ S' = [S EXCEPT ![a.h].e = Effect(@,x)] /\ O' = O
Obs(x,M,Od) ==
  /\ Chk("number of sets",x.s.n = Len(Od))
  /\ Chk("sets by position",x.s.order = Od)
  /\ Chk("iteration over sets",x.s.walk = Od)
  /\ Chk("lookup by name",\A i \in DOMAIN x.s.by : LET nm == x.s.by[i][1] h == x.s.by[i][2] IN
        IF h = 0 THEN \A g \in DOMAIN M : M[g].n # nm ELSE h \in DOMAIN M /\ M[h].n = nm)
  /\ \A i \in DOMAIN x.s.sets : LET o == x.s.sets[i] s == M[o.h] IN
     /\ Chk("set name",o.n = s.n)
     /\ Chk("set dimension",o.d = s.d)
     /\ Chk("number of members",o.k = Len(s.e))
     /\ Chk("members by position",o.ent = s.e \o <<0>>)
     /\ Chk("iteration over members",o.walk = s.e)
     /\ Chk("membership and position",\A j \in DOMAIN o.q : LET v == o.q[j][1] IN o.q[j][2] = B(Pos(s.e,v) > 0) /\ o.q[j][3] = Pos(s.e,v)-1)
Init == l = 1 /\ S = <<>> /\ O = <<>>
Next == /\ l <= Len(Log)
        /\ Step(Log[l])
        /\ Obs(Log[l],S',O')
        /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
