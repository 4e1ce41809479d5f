------------------------------ MODULE ListTrace -----------------------------
(* MSTK lists as ordered sequences (property C08).                             *)
(* State: L  - name -> sequence of values (the live lists)                     *)
(*        It - iterator -> [l, p]: list and positions still to be visited      *)
(* Every log line is one call on a real list plus everything observable of     *)
(* all live lists afterwards.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, TLCExt
Log  == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Cont == "CONT" \in DOMAIN IOEnv
VARIABLES l, L, It
vars == <<l, L, It>>
Range(s) == {s[i] : i \in DOMAIN s}
Chk(name,cond) == IF cond THEN TRUE ELSE PrintT(<<"REJECT", l, "list", name>>) /\ Cont

Pos(s,v)  == IF \E i \in DOMAIN s : s[i] = v THEN CHOOSE i \in DOMAIN s : s[i] = v /\ \A j \in 1..(i-1) : s[j] # v ELSE 0
Del(s,i)  == SubSeq(s,1,i-1) \o SubSeq(s,i+1,Len(s))
Ins(s,i,v) == SubSeq(s,1,i-1) \o <<v>> \o SubSeq(s,i,Len(s))      \* v becomes the i-th
RECURSIVE SortSeq2(_)
SortSeq2(s) == IF s = <<>> THEN <<>> ELSE
   LET k == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[i] <= s[j] IN <<s[k]>> \o SortSeq2(Del(s,k))
NonZero(s) == SelectSeq(s,LAMBDA x : x # 0)

\* the effect of an operation on the list it is applied to, and its return value
Effect(s,x) ==
  LET a == x.a IN
  CASE x.op = "add"      -> Append(s,a.v)
    [] x.op = "chknadd"  -> IF Pos(s,a.v) > 0 THEN s ELSE Append(s,a.v)
    [] x.op = "insert"   -> IF a.b = 0 THEN Append(s,a.v) ELSE IF Pos(s,a.b) = 0 THEN s ELSE Ins(s,Pos(s,a.b),a.v)
    [] x.op = "inserti"  -> Ins(s,a.i+1,a.v)
    [] x.op = "rem"      -> IF Pos(s,a.v) = 0 THEN s ELSE Del(s,Pos(s,a.v))
    [] x.op = "remi"     -> IF a.i < Len(s) THEN Del(s,a.i+1) ELSE s
    [] x.op = "remraw"   -> IF a.rank = 0 THEN s ELSE Del(s,a.rank)
    [] x.op = "remsorted" -> IF Pos(s,a.v) = 0 THEN s ELSE Del(s,Pos(s,a.v))
    [] x.op = "replace"  -> IF Pos(s,a.v) = 0 THEN s ELSE [s EXCEPT ![Pos(s,a.v)] = a.w]
    [] x.op = "replacei" -> [s EXCEPT ![a.i+1] = a.w]
    [] x.op = "cat"      -> s \o (IF "e" \in DOMAIN a THEN a.e ELSE L[a.src])
    [] x.op = "compress" -> s
    [] x.op = "sort"     -> SortSeq2(s)
    [] OTHER -> s
B(c) == IF c THEN 1 ELSE 0
Ret(s,x) ==
  LET a == x.a IN
  CASE x.op \in {"rem","remsorted","replace"} -> B(Pos(s,a.v) > 0)
    [] x.op = "remi" -> B(a.i < Len(s))
    [] x.op = "replacei" -> 1
    [] x.op = "search" -> IF Pos(s,a.v) > 0 THEN a.v ELSE 0
    [] OTHER -> x.r
\* positions still pending in an iteration after the list changed
RemovedAt(s,x) ==
  CASE x.op \in {"rem","remsorted"} -> Pos(s,x.a.v)
    [] x.op = "remi" -> IF x.a.i < Len(s) THEN x.a.i+1 ELSE 0
    [] x.op = "remraw" -> x.a.rank
    [] OTHER -> 0
Pend(s,n,x,p) ==
  IF x.op \in {"add","chknadd","cat"} THEN p \o [i \in 1..(Len(n)-Len(s)) |-> Len(s)+i]
  ELSE LET k == RemovedAt(s,x) IN
       IF k = 0 THEN p ELSE LET q == SelectSeq(p,LAMBDA y : y # k) IN [i \in DOMAIN q |-> IF q[i] > k THEN q[i]-1 ELSE q[i]]
Disturbs == {"insert","inserti","compress","sort"}

Obs(x,M) == \A n \in DOMAIN M : LET o == x.s[n] s == M[n] IN
   /\ Chk("number of entries",o.n = Len(s))
   /\ Chk("entries by position",o.ent = s \o <<0>>)
   /\ Chk("iteration",o.walk = s)
   /\ Chk("raw storage holds the entries in order",NonZero(o.raw) = s)
   /\ Chk("location of a value",\A v \in DOMAIN o.loc : o.loc[v] = Pos(s,v)-1)
   /\ Chk("membership of a value",\A v \in DOMAIN o.con : o.con[v] = B(Pos(s,v) > 0))
Step(x) ==
  LET a == x.a IN
  CASE x.op = "reset"  -> L' = <<>> /\ It' = <<>>
    [] x.op = "load"   -> L' = (1 :> a.e) /\ It' = <<>>        \* a list brought to this content by unlogged steps of a path
    [] x.op = "new"    -> L' = (a.l :> <<>>) @@ L /\ It' = It
    [] x.op = "delete" -> L' = [n \in DOMAIN L \ {a.l} |-> L[n]] /\ It' = [i \in {j \in DOMAIN It : It[j].l # a.l} |-> It[i]]
    [] x.op = "copy" /\ "src" \notin DOMAIN a -> L' = L /\ It' = It          \* replaced by its copy
    [] x.op = "copy"   -> L' = (a.l :> L[a.src]) @@ L /\ It' = It
    [] x.op = "iter"   -> L' = L /\ It' = (a.i :> [l |-> a.l, p |-> [k \in 1..Len(L[a.l]) |-> k]]) @@ It
    [] x.op = "next"   -> /\ L' = L
                          /\ LET t == It[a.i] s == L[t.l] IN
                             /\ Chk("next entry of an iteration",x.r = (IF t.p = <<>> THEN 0 ELSE s[Head(t.p)]))
                             /\ It' = [It EXCEPT ![a.i].p = IF @ = <<>> THEN @ ELSE Tail(@)]
    [] x.op = "noop"   -> L' = L /\ It' = It
    [] OTHER -> LET s == L[a.l] n == Effect(s,x) IN
         /\ Chk("return value",x.r = Ret(s,x))
         /\ L' = [L EXCEPT ![a.l] = n]
         /\ It' = [i \in {j \in DOMAIN It : ~(It[j].l = a.l /\ x.op \in Disturbs)} |->
                      IF It[i].l = a.l THEN [l |-> a.l, p |-> Pend(s,n,x,It[i].p)] ELSE It[i]]
Init == l = 1 /\ L = <<>> /\ It = <<>>
Next == /\ l <= Len(Log)
        /\ Step(Log[l])
        /\ Obs(Log[l],L')
        /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
