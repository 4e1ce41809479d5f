------------------------------- MODULE ListMC -------------------------------
(* The list implementation at the level of its representation: an array with   *)
(* gaps, the recorded position of the first gap and the allocated size.  TLC   *)
(* visits every representation reachable within the bounds and checks that     *)
(* each operation on it refines the operation on sequences that ListTrace      *)
(* demands; every transition is printed as a path and executed on real lists.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Val,      \* values 1..Val
          Len0,     \* initial sizes asked for
          MaxRaw,   \* longest array
          Depth,    \* longest path
          Emit
VARIABLES raw, rem1, p, ini, hist, ok
vars == <<raw, rem1, p, ini, hist, ok>>
View == <<raw, rem1, p, ok>>
Vals == 1..Val
Range(s) == {s[i] : i \in DOMAIN s}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
NonZero(s) == SelectSeq(s,LAMBDA x : x # 0)
Pos(s,v)  == IF \E i \in DOMAIN s : s[i] = v THEN CHOOSE i \in DOMAIN s : s[i] = v /\ \A j \in 1..(i-1) : s[j] # v ELSE 0
Del(s,i)  == SubSeq(s,1,i-1) \o SubSeq(s,i+1,Len(s))
Ins(s,i,v) == SubSeq(s,1,i-1) \o <<v>> \o SubSeq(s,i,Len(s))
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE LET k == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[i] <= s[j] IN <<s[k]>> \o Sort(Del(s,k))
NRem == Cardinality({i \in DOMAIN raw : raw[i] = 0})
NEnt == Len(raw) - NRem
Abs == NonZero(raw)
\* the array position of the (i+1)-th entry, found as the code finds it: directly when no gap is recorded before it
At(i) == IF NRem = 0 \/ rem1 > i THEN i+1 ELSE CHOOSE k \in DOMAIN raw : raw[k] # 0 /\ Cardinality({j \in 1..k : raw[j] # 0}) = i+1
Grow == IF Len(raw) = (2^p)-1 THEN p+1 ELSE p
First(k) == IF rem1 = -1 \/ rem1 > k-1 THEN k-1 ELSE rem1
(* representation, sequence it must stand for, name and arguments *)
Do(op,a,nraw,nrem1,np,want) ==
  /\ raw' = nraw /\ rem1' = (IF 0 \in Range(nraw) THEN nrem1 ELSE -1) /\ p' = np /\ ini' = ini
  /\ ok' = (NonZero(nraw) = want)
  /\ hist' = Append(hist,<<op,a>>)
  /\ (Emit = 0 \/ PrintT(<<"PATH", ToJson([ini |-> ini, h |-> hist', pre |-> Abs])>>))
Room == Len(raw) < MaxRaw
Gap(k,op,a,want) == Do(op,a,[raw EXCEPT ![k] = 0],First(k),p,want)      \* position k is blanked
Same(op,a) == Do(op,a,raw,rem1,p,Abs)
Add(v) == Room /\ Do("add",<<v>>,Append(raw,v),rem1,Grow,Append(Abs,v))
ChknAdd(v) == IF v \in Range(raw) THEN Same("chknadd",<<v>>) ELSE Room /\ Do("chknadd",<<v>>,Append(raw,v),rem1,Grow,Append(Abs,v))
Inserti(v,i) == Room /\ i <= NEnt /\
  IF i = NEnt THEN Do("inserti",<<v,i>>,Append(raw,v),rem1,Grow,Append(Abs,v))
  ELSE Do("inserti",<<v,i>>,Ins(raw,At(i),v),rem1,Grow,Ins(Abs,i+1,v))
Insert(v,b) == Room /\
  IF b = 0 THEN Do("insert",<<v,b>>,Append(raw,v),rem1,Grow,Append(Abs,v))
  ELSE IF b \notin Range(raw) THEN Do("insert",<<v,b>>,raw,rem1,p,Abs)
  ELSE Do("insert",<<v,b>>,Ins(raw,Pos(raw,b),v),rem1,Grow,Ins(Abs,Pos(Abs,b),v))
Rem(v) == IF v \notin Range(raw) THEN Same("rem",<<v>>) ELSE Gap(Pos(raw,v),"rem",<<v>>,Del(Abs,Pos(Abs,v)))
Remi(i) == IF i >= NEnt THEN Same("remi",<<i>>) ELSE Gap(At(i),"remi",<<i>>,Del(Abs,i+1))
RemRaw(i) == i < Len(raw) /\ LET rank == Cardinality({j \in 1..(i+1) : raw[j] # 0}) IN
  IF raw[i+1] = 0 THEN Same("remraw",<<i>>) ELSE Gap(i+1,"remraw",<<i>>,Del(Abs,rank))
RemSorted(v) == NEnt > 0 /\ Sort(Abs) = Abs /\ Cardinality(Range(Abs)) = Len(Abs) /\
  IF v \notin Range(raw) THEN Same("remsorted",<<v>>) ELSE Gap(Pos(raw,v),"remsorted",<<v>>,Del(Abs,Pos(Abs,v)))
Replace(v,w) == v # w /\ IF v \notin Range(raw) THEN Same("replace",<<v,w>>)
  ELSE Do("replace",<<v,w>>,[raw EXCEPT ![Pos(raw,v)] = w],rem1,p,[Abs EXCEPT ![Pos(Abs,v)] = w])
Replacei(i,w) == i < NEnt /\ Do("replacei",<<i,w>>,[raw EXCEPT ![At(i)] = w],rem1,p,[Abs EXCEPT ![i+1] = w])
Compress == 0 \in Range(raw) /\ Do("compress",<<>>,Abs,-1,p,Abs)
SortL == NRem = 0 /\ raw # <<>> /\ Do("sort",<<>>,Sort(raw),rem1,p,Sort(Abs))
\* appending another list, which may have gaps of its own
Srcs == { <<1>>, <<0,Val>>, <<1,0>>, <<0>> }
Cat(s) == /\ Len(raw) + Len(s) <= MaxRaw
  /\ LET n == Len(raw) + Len(s) r == IF NRem = 0 /\ 0 \in Range(s) THEN Len(raw) + MinOf({k \in DOMAIN s : s[k] = 0}) - 1 ELSE rem1
         ps == MinOf({k \in 0..6 : 2^k > Len(s)}) IN
     Do("cat",<<s>>,raw \o s,r,MinOf({k \in 0..6 : k >= p /\ k >= ps /\ 2^k > n}),Abs \o NonZero(s))
Copy == Same("copy",<<>>)
Init == \E n \in Len0 : /\ ini = n /\ raw = <<>> /\ rem1 = -1 /\ hist = <<>> /\ ok = TRUE
                        /\ p = IF n = 0 THEN 3 ELSE MinOf({k \in 0..6 : 2^k > n})
Next == /\ Len(hist) < Depth /\ ok
        /\ \/ \E v \in Vals : Add(v) \/ ChknAdd(v) \/ Rem(v) \/ RemSorted(v)
           \/ \E v \in Vals : \E i \in 0..MaxRaw : Inserti(v,i) \/ Replacei(i,v)
           \/ \E v \in Vals : \E b \in 0..Val : Insert(v,b) \/ (b > 0 /\ Replace(v,b))
           \/ \E i \in 0..(NEnt+1) : Remi(i)
           \/ \E i \in 0..MaxRaw : RemRaw(i)
           \/ \E s \in Srcs : Cat(s)
           \/ Compress \/ SortL \/ Copy
Refines == ok
\* the recorded first gap is never behind a gap, so direct access before it is sound
GapOK == (rem1 = -1 <=> NRem = 0) /\ (NRem > 0 => \A k \in DOMAIN raw : raw[k] = 0 => rem1 <= k-1)
SizeOK == Len(raw) <= (2^p)-1
=============================================================================
