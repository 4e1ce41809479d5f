------------------------------ MODULE AttrTrace -----------------------------
(* Attributes on mesh entities (property C10, attribute part of C07).          *)
(* State: A - handle -> [n,t,d,c]: name, type, entity dimension, components    *)
(*        O - attribute handles of the mesh, in order                          *)
(*        W - <<attribute, entity>> -> value last set (absent: not in domain)  *)
(*            a cleared value is [ok |-> FALSE]                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, TLCExt
Log  == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Cont == "CONT" \in DOMAIN IOEnv
VARIABLES l, A, O, W
vars == <<l, A, O, W>>
Range(s) == {s[i] : i \in DOMAIN s}
Chk(name,cond) == IF cond THEN TRUE ELSE PrintT(<<"REJECT", l, "attr", name>>) /\ Cont
Drop(f,K) == [k \in DOMAIN f \ K |-> f[k]]
Keys(a) == {k \in DOMAIN W : k[1] = a}
Step(x) ==
  LET a == x.a IN
  CASE x.op = "reset"  -> A' = <<>> /\ O' = <<>> /\ W' = <<>>
    [] x.op = "new"    -> A' = (a.h :> [n |-> a.n, t |-> a.t, d |-> a.d, c |-> a.c]) @@ A /\ O' = Append(O,a.h) /\ W' = W
    [] x.op = "delete" -> A' = Drop(A,{a.h}) /\ O' = SelectSeq(O,LAMBDA h : h # a.h) /\ W' = Drop(W,Keys(a.h))
    [] x.op = "set"    -> W' = (<<a.h,a.e>> :> [ok |-> TRUE, v |-> a.v]) @@ W /\ UNCHANGED <<A,O>>
    [] x.op = "rem"    -> W' = Drop(W,{<<a.h,a.e>>}) /\ UNCHANGED <<A,O>>
    [] x.op = "clear"  -> W' = (IF <<a.h,a.e>> \in DOMAIN W THEN (<<a.h,a.e>> :> [ok |-> FALSE]) @@ W ELSE W) /\ UNCHANGED <<A,O>>
    [] x.op = "clearall" -> W' = [k \in DOMAIN W |-> IF k[1] = a.h /\ k[2] \in Range(a.live) THEN [ok |-> FALSE] ELSE W[k]] /\ UNCHANGED <<A,O>>
    [] x.op = "remall" -> W' = Drop(W,{k \in DOMAIN W : k[2] = a.e}) /\ UNCHANGED <<A,O>>
    [] x.op = "destroy" -> W' = Drop(W,{k \in DOMAIN W : k[2] \in Range(a.es)}) /\ UNCHANGED <<A,O>>   \* entity really deleted
    [] OTHER           -> UNCHANGED <<A,O,W>>      \* scribbling over the caller's buffer, delete-with-keep, restore, edits of other entities
\* what reading attribute h on entity e gives: <<status, value>>
ReadOK(h,e,M,F,o) ==
  LET k == <<h,e>> t == F[h].t IN
  IF k \notin DOMAIN M THEN o[1] = 0 /\ o[2] = (IF t \in {0,1} THEN <<0>> ELSE <<>>)
  ELSE IF ~M[k].ok THEN o[2] = (IF t \in {0,1} THEN <<0>> ELSE <<>>)
  ELSE o[1] = 1 /\ o[2] = M[k].v
Obs(x,F,Od,M) ==
  /\ Chk("number of attributes",x.s.n = Len(Od))
  /\ Chk("attributes by position",x.s.order = Od)
  /\ Chk("iteration over attributes",x.s.walk = Od)
  /\ Chk("definition of an attribute",\A i \in DOMAIN x.s.defs : LET o == x.s.defs[i] IN F[o.h] = [n |-> o.n, t |-> o.t, d |-> o.d, c |-> o.c])
  /\ Chk("lookup by name",\A i \in DOMAIN x.s.by : LET nm == x.s.by[i][1] h == x.s.by[i][2] IN
        IF h = 0 THEN \A g \in DOMAIN F : F[g].n # nm ELSE h \in DOMAIN F /\ F[h].n = nm)
  /\ Chk("value read",\A i \in DOMAIN x.s.vals : LET o == x.s.vals[i] IN ReadOK(o[1],o[2],M,F,<<o[3],o[4]>>))
  /\ Chk("typed value read",\A i \in DOMAIN x.s.vals : LET o == x.s.vals[i] IN o[5] = o[4])
Init == l = 1 /\ A = <<>> /\ O = <<>> /\ W = <<>>
Next == /\ l <= Len(Log)
        /\ Step(Log[l])
        /\ Obs(Log[l],A',O',W')
        /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
