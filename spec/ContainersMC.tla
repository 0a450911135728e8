---------------------------- MODULE ContainersMC ----------------------------
(* Every history of operations on a container of up to three distinct values,
   up to a depth.  The set and the map are kept as lists in descending order,
   by scanning for the place of a value; what they stand for is kept beside.
   Fault: "" | "end" (a value that belongs at the end of the ordered list is
   lost) | "dup" (the scan stops too late to meet an equal value) - both must
   violate Represents; "off" (a list set at the end fails) must violate
   SetAtEnd.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Sub, Depth, NX, Fault
X == 1..NX
Val(x) == [t |-> 8, b |-> <<0, 0, 0, x>>, a |-> <<>>, v |-> <<>>]
C == INSTANCE Containers
VARIABLES st,     \* the specification's state
          ord,    \* the ordered list
          hist
vars == <<st, ord, hist>>
Init == /\ st = CASE Sub = "list" -> C!LInit(8) [] Sub = "set" -> C!SInit(8) [] Sub = "map" -> C!MInit(8, 8)
        /\ ord = <<>> /\ hist = <<>>
H(o) == hist' = Append(hist, o)
Ok == [e |-> 0]
(* ordered insertion of key x with value y *)
Key(e) == e[1]
Before(k) == {i \in 1..Len(ord) : IF Fault = "dup" THEN Key(ord[i]) < k ELSE Key(ord[i]) <= k}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
OrdPut(k, y) == LET S == Before(k) IN
  IF S = {} THEN (IF Fault = "end" /\ ord # <<>> THEN ord ELSE Append(ord, <<k, y>>))
  ELSE LET i == First(S) IN
       IF Key(ord[i]) = k THEN [ord EXCEPT ![i] = <<k, y>>]
       ELSE SubSeq(ord, 1, i - 1) \o <<<<k, y>>>> \o SubSeq(ord, i, Len(ord))
OrdDel(k) == SelectSeq(ord, LAMBDA e : Key(e) # k)
After(r) == IF r.v = "go" THEN st' = r.s ELSE Assert(FALSE, "not enabled")
n == Len(st.l)
(* an operation out of range is answered with a failure *)
LDo(o, ev) == LET bad == C!LStep(st, ev @@ Ok @@ [r |-> Val(1)]).v = "bad"
              IN st' = C!LStep(st, ev @@ [e |-> IF bad /\ ev.o # "Pop" THEN 2 ELSE 0, r |-> IF n > 0 THEN st.l[n] ELSE Val(1)]).s /\ H(o) /\ UNCHANGED ord
ListNext ==
  \/ \E x \in X : LDo([o |-> "Push", x |-> x], [o |-> "Push", v |-> Val(x)])
  \/ \E x \in X, i \in -1..n + 1 : \E o \in {"Insert", "Set"} : LDo([o |-> o, x |-> x, i |-> i], [o |-> o, v |-> Val(x), i |-> i])
  \/ \E i \in -1..n : LDo([o |-> "Delete", i |-> i], [o |-> "Delete", i |-> i])
  \/ \E i \in 0..n, j \in 0..n : i < j /\ LDo([o |-> "Swap", i |-> i, j |-> j], [o |-> "Swap", i |-> i, j |-> j])
  \/ LDo([o |-> "Pop"], [o |-> "Pop"])
SetNext ==
  \/ \E x \in X : After(C!SStep(st, [o |-> "Add", v |-> Val(x), e |-> 0])) /\ ord' = OrdPut(x, 0) /\ H([o |-> "Add", x |-> x])
  \/ \E x \in X : After(C!SStep(st, [o |-> "Remove", v |-> Val(x), e |-> 0])) /\ ord' = OrdDel(x) /\ H([o |-> "Remove", x |-> x])
MapNext == \E x \in X, y \in 1..2 : After(C!MStep(st, [o |-> "Put", k |-> Val(x), v |-> Val(y), e |-> 0])) /\ ord' = OrdPut(x, y) /\ H([o |-> "Put", x |-> x, y |-> y])
Next == Len(hist) < Depth /\ CASE Sub = "list" -> ListNext [] Sub = "set" -> SetNext [] Sub = "map" -> MapNext
Spec == Init /\ [][Next]_vars

(* the ordered list stands for the set or mapping *)
Abs == CASE Sub = "set" -> {st.m[i].b[4] : i \in 1..Len(st.m)}
         [] Sub = "map" -> {<<st.m[i][1].b[4], st.m[i][2].b[4]>> : i \in 1..Len(st.m)}
Rep == CASE Sub = "set" -> {ord[i][1] : i \in 1..Len(ord)} [] Sub = "map" -> {ord[i] : i \in 1..Len(ord)}
Represents == Sub # "list" => Len(ord) = Len(st.m) /\ Rep = Abs /\ \A i \in 1..Len(ord) - 1 : ord[i][1] > ord[i + 1][1]
(* equality of containers does not depend on the history: the same contents,
   kept in another order, are equal *)
OrderFree == CASE Sub = "set" -> C!Eq([t |-> 14, b |-> <<>>, a |-> <<8>>, v |-> st.m], [t |-> 14, b |-> <<>>, a |-> <<8>>, v |-> C!Rev(st.m)])
               [] Sub = "map" -> C!Eq([t |-> 13, b |-> <<>>, a |-> <<8, 8>>, v |-> C!Flat(st.m)], [t |-> 13, b |-> <<>>, a |-> <<8, 8>>, v |-> C!Flat(C!Rev(st.m))])
               [] OTHER -> TRUE
(* what an operation does to the elements it does not name *)
Last == hist'[Len(hist')]
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
ListFrame == Sub = "list" => LET l == st.l  m == st'.l  o == Last IN
   CASE o.o = "Push" -> m = Append(l, Val(o.x))
     [] o.o = "Insert" -> IF o.i \in 0..Len(l) THEN Len(m) = Len(l) + 1 /\ m[o.i + 1] = Val(o.x) /\ C!Del(m, o.i) = l ELSE m = l
     [] o.o = "Delete" -> IF o.i \in 0..Len(l) - 1 THEN C!Ins(m, o.i, l[o.i + 1]) = l ELSE m = l
     [] o.o = "Set" -> IF o.i \in 0..Len(l) - 1 THEN Len(m) = Len(l) /\ \A k \in 1..Len(l) : m[k] = IF k = o.i + 1 THEN Val(o.x) ELSE l[k]
                       ELSE IF o.i < 0 THEN m = l ELSE IsPre(l, m) /\ Len(m) = Len(l) + (IF Fault = "off" THEN 0 ELSE 1)
     [] o.o = "Swap" -> IF o.j < Len(l) THEN C!LSwap(m, o.i, o.j) = l ELSE m = l
     [] o.o = "Pop" -> IF l = <<>> THEN m = l ELSE Append(m, l[Len(l)]) = l
Frame == [][ListFrame]_vars
Emit == Len(hist) = Depth /\ IOEnv.EMIT = "1" => PrintT("SCRIPT " \o ToJson([ops |-> hist]))
=============================================================================
