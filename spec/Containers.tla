----------------------------- MODULE Containers -----------------------------
(* The list, set and map containers as the sequence, set and mapping they
   stand for, and what their calls must report.
   A container made without a type takes that of the first value it is given.
   A value of another type is left out.                                     *)
EXTENDS Values, TLC
Go(s) == [v |-> "go", s |-> s, want |-> ""]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
Empty(t) == t \in {TStop, TVoid}
Typ(t, x) == IF Empty(t) THEN x.t ELSE t
Fits(t, x) == Kind(x.t) = Kind(t)
Failed(s, ev, want) == IF ev.e # 0 THEN Go(s) ELSE Bad(s, want)
Done(s, s2, ev) == IF ev.e = 0 THEN Go(s2) ELSE Bad(s, "done")
Tell(s, ok, want) == IF ok THEN Go(s) ELSE Bad(s, want)
NormSeq(l) == [i \in 1..Len(l) |-> Norm(l[i])]

(* comparing this container with another: what Equals, CompareTo and Less say *)
Compared(s, ev, me) ==
  LET same == Eq(me, ev.v)
  IN IF ev.e # 0 THEN Bad(s, "no failure")
     ELSE IF \E i \in 1..Len(ev.eq) : ev.eq[i] # (IF same THEN 1 ELSE 0) THEN Bad(s, <<"equal:", same>>)
     ELSE IF \E i \in 1..Len(ev.c) : ev.c[i] # ev.c[1] \/ ev.rc[i] # -ev.c[i] THEN Bad(s, "one order, whichever way and however often it is asked")
     ELSE IF \E i \in 1..Len(ev.c) : (ev.c[i] = 0) # same THEN Bad(s, <<"compares as equal:", same>>)
     ELSE IF Natural(me) /\ ev.c[1] # Cmp(me, ev.v) THEN Bad(s, <<"order", Cmp(me, ev.v)>>)
     ELSE IF \E i \in 1..Len(ev.less) : ev.less[i] # (IF ev.c[1] < 0 THEN 1 ELSE 0) THEN Bad(s, "less: comes before")
     ELSE Go(s)

(* ---- list ---- *)
LInit(et) == [et |-> et, l |-> <<>>]
In(s, i) == i >= 0 /\ i < Len(s.l)
Ins(l, i, x) == SubSeq(l, 1, i) \o <<x>> \o SubSeq(l, i + 1, Len(l))
Del(l, i) == SubSeq(l, 1, i) \o SubSeq(l, i + 2, Len(l))
(* the list after an operation that is in range *)
LSet(l, i, x) == IF i < Len(l) THEN [l EXCEPT ![i + 1] = x] ELSE Append(l, x)
LSwap(l, i, j) == [l EXCEPT ![i + 1] = l[j + 1], ![j + 1] = l[i + 1]]
LStep(s, ev) ==
  IF ev.e = 3 THEN Bad(s, "returns") ELSE
  CASE ev.o = "Push" -> IF Fits(Typ(s.et, ev.v), ev.v) THEN Done(s, [et |-> Typ(s.et, ev.v), l |-> Append(s.l, ev.v)], ev) ELSE Done(s, s, ev)
    [] ev.o = "Set" -> IF ~Fits(Typ(s.et, ev.v), ev.v) THEN Go(s)
                       ELSE IF ev.i < 0 THEN Failed(s, ev, "a failure: no such index")
                       ELSE Done(s, [et |-> Typ(s.et, ev.v), l |-> LSet(s.l, ev.i, ev.v)], ev)
    [] ev.o = "Insert" -> IF ~Fits(Typ(s.et, ev.v), ev.v) THEN Go(s)
                       ELSE IF ev.i < 0 \/ ev.i > Len(s.l) THEN Failed(s, ev, "a failure: no such index")
                       ELSE Done(s, [et |-> Typ(s.et, ev.v), l |-> Ins(s.l, ev.i, ev.v)], ev)
    [] ev.o = "Delete" -> IF In(s, ev.i) THEN Done(s, [s EXCEPT !.l = Del(s.l, ev.i)], ev) ELSE Failed(s, ev, "a failure: no such index")
    [] ev.o = "Swap" -> IF In(s, ev.i) /\ In(s, ev.j) THEN Done(s, [s EXCEPT !.l = LSwap(s.l, ev.i, ev.j)], ev) ELSE Failed(s, ev, "a failure: no such index")
    [] ev.o = "Pop" -> IF s.l = <<>> THEN Failed(s, ev, "a failure: the list is empty")
                       ELSE IF ev.e = 0 /\ Eq(ev.r, s.l[Len(s.l)]) THEN Go([s EXCEPT !.l = SubSeq(s.l, 1, Len(s.l) - 1)]) ELSE Bad(s, <<"the last element", s.l[Len(s.l)]>>)
    [] ev.o = "At" -> IF In(s, ev.i) THEN Tell(s, ev.e = 0 /\ Eq(ev.r, s.l[ev.i + 1]), s.l[ev.i + 1]) ELSE Failed(s, ev, "a failure: no such index")
    [] ev.o = "Has" -> LET want == IF \E i \in 1..Len(s.l) : Eq(s.l[i], ev.v) THEN 1 ELSE 0 IN Tell(s, ev.e = 0 /\ ev.r = want, want)
    [] ev.o = "Less" -> IF ~(In(s, ev.i) /\ In(s, ev.j)) THEN Failed(s, ev, "a failure: no such index")
                        ELSE LET x == s.l[ev.i + 1]  y == s.l[ev.j + 1]
                             IN IF ev.e # 0 THEN Bad(s, "no failure")
                                ELSE IF Natural(x) /\ Natural(y) THEN Tell(s, ev.r = (IF Cmp(x, y) < 0 THEN 1 ELSE 0), Cmp(x, y))
                                ELSE IF Eq(x, y) THEN Tell(s, ev.r = 0 /\ ev.rr = 0, "neither is less")
                                ELSE Tell(s, ev.r + ev.rr = 1, "one of the two is less")
    [] ev.o = "Obs" -> IF ev.e # 0 THEN Bad(s, "no failure")
                       ELSE IF ev.n # Len(s.l) THEN Bad(s, <<"length", Len(s.l)>>)
                       ELSE IF ev.et # s.et THEN Bad(s, <<"element type", s.et>>)
                       ELSE IF NormSeq(ev.at) # NormSeq(s.l) THEN Bad(s, <<"elements", s.l>>)
                       ELSE Tell(s, NormSeq(ev.it) = NormSeq(s.l), <<"iteration", s.l>>)
    [] ev.o = "Eq" -> Compared(s, ev, [t |-> TList, b |-> <<>>, a |-> <<s.et>>, v |-> s.l])

(* ---- set: m holds one value of each class of equal values ---- *)
SInit(et) == [et |-> et, m |-> <<>>]
Member(m, x) == \E i \in 1..Len(m) : Eq(m[i], x)
Without(m, x) == SelectSeq(m, LAMBDA y : ~Eq(y, x))
SAdd(m, x) == IF Member(m, x) THEN m ELSE Append(m, x)
Lists(l, m) == Len(l) = Len(m) /\ {Norm(l[i]) : i \in 1..Len(l)} = {Norm(m[i]) : i \in 1..Len(m)}
Rev(l) == [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]
SStep(s, ev) ==
  IF ev.e # 0 THEN Bad(s, "no failure") ELSE
  CASE ev.o = "Add" -> IF Fits(Typ(s.et, ev.v), ev.v) THEN Go([et |-> Typ(s.et, ev.v), m |-> SAdd(s.m, ev.v)]) ELSE Go(s)
    [] ev.o = "Remove" -> Go([s EXCEPT !.m = Without(s.m, ev.v)])
    [] ev.o = "Has" -> LET want == IF Member(s.m, ev.v) THEN 1 ELSE 0 IN Tell(s, ev.r = want, want)
    [] ev.o = "Obs" -> IF ev.n # Len(s.m) THEN Bad(s, <<"length", Len(s.m)>>)
                       ELSE IF ev.et # s.et THEN Bad(s, <<"element type", s.et>>)
                       ELSE IF ~Lists(ev.vals, s.m) THEN Bad(s, <<"values", s.m>>)
                       ELSE IF ~Lists(ev.fwd, s.m) THEN Bad(s, <<"iteration", s.m>>)
                       ELSE Tell(s, NormSeq(ev.bwd) = NormSeq(Rev(ev.fwd)), "the same backwards")
    [] ev.o = "Eq" -> Compared(s, ev, [t |-> TSet, b |-> <<>>, a |-> <<s.et>>, v |-> s.m])

(* ---- map: m is a sequence of <<key, value>>, one per key ---- *)
MInit(kt, vt) == [kt |-> kt, vt |-> vt, m |-> <<>>]
MHas(m, k) == \E i \in 1..Len(m) : Eq(m[i][1], k)
MGet(m, k) == m[CHOOSE i \in 1..Len(m) : Eq(m[i][1], k)][2]
MSet(m, k, x) == IF MHas(m, k) THEN [i \in 1..Len(m) |-> IF Eq(m[i][1], k) THEN <<k, x>> ELSE m[i]] ELSE Append(m, <<k, x>>)
Pairs(m) == {<<Norm(m[i][1]), Norm(m[i][2])>> : i \in 1..Len(m)}
Firsts(m) == [i \in 1..Len(m) |-> m[i][1]]
Seconds(m) == [i \in 1..Len(m) |-> m[i][2]]
Count(l, x) == Cardinality({i \in 1..Len(l) : Norm(l[i]) = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : LET x == Norm(a[i]) IN Count(a, x) = Count(b, x)
Flat(m) == [i \in 1..2*Len(m) |-> m[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]
MStep(s, ev) ==
  IF ev.e # 0 THEN Bad(s, "no failure") ELSE
  CASE ev.o = "Put" -> LET kt == Typ(s.kt, ev.k)  vt == Typ(s.vt, ev.v)
                       IN IF Fits(kt, ev.k) /\ Fits(vt, ev.v) THEN Go([kt |-> kt, vt |-> vt, m |-> MSet(s.m, ev.k, ev.v)]) ELSE Go(s)
    [] ev.o = "Get" -> IF MHas(s.m, ev.k) THEN Tell(s, ev.ok = 1 /\ Eq(ev.r, MGet(s.m, ev.k)), MGet(s.m, ev.k)) ELSE Tell(s, ev.ok = 0, "missing")
    [] ev.o = "Has" -> LET want == IF MHas(s.m, ev.k) THEN 1 ELSE 0 IN Tell(s, ev.r = want, want)
    [] ev.o = "Obs" -> IF ev.n # Len(s.m) THEN Bad(s, <<"length", Len(s.m)>>)
                       ELSE IF ev.kt # s.kt \/ ev.vt # s.vt THEN Bad(s, <<"types", s.kt, s.vt>>)
                       ELSE IF ~(Len(ev.it) = Len(s.m) /\ Pairs(ev.it) = Pairs(s.m)) THEN Bad(s, <<"pairs", s.m>>)
                       ELSE IF ~Lists(ev.keys, Firsts(s.m)) \/ ~Lists(ev.kit, Firsts(s.m)) THEN Bad(s, <<"keys", Firsts(s.m)>>)
                       ELSE Tell(s, SameBag(ev.vals, Seconds(s.m)) /\ SameBag(ev.vit, Seconds(s.m)), <<"values", Seconds(s.m)>>)
    [] ev.o = "Eq" -> Compared(s, ev, [t |-> TMap, b |-> <<>>, a |-> <<s.kt, s.vt>>, v |-> Flat(s.m)])

(* ---- tables of comparisons ---- *)
(* ev.vs values of type ev.t; c: Compare; l: Less (0/1); tables that only some
   types have (ct: CompareTo, eq: Equals, lt: Less of the value) are <<>> else *)
Matrix(s, ev) ==
  LET n == Len(ev.vs)  o == Order(ev.vs, ev.c)
      Agree(m, f(_)) == m = <<>> \/ \A i, j \in 1..n : m[i][j] = f(ev.c[i][j])
      B(x) == IF x THEN 1 ELSE 0
  IN IF ev.e # 0 THEN Bad(s, "no failure")
     ELSE IF ev.nok # 0 THEN Bad(s, "values of one type can be compared")
     ELSE IF o # "" THEN Bad(s, o)
     ELSE IF ~Agree(ev.c2, LAMBDA x : x) \/ ~Agree(ev.ct, LAMBDA x : x) \/ ~Agree(ev.ca, LAMBDA x : x) THEN Bad(s, "every comparison of the same values agrees")
     ELSE IF ~Agree(ev.l, LAMBDA x : B(x < 0)) \/ ~Agree(ev.lt, LAMBDA x : B(x < 0)) THEN Bad(s, "less: comes before")
     ELSE Tell(s, Agree(ev.eq, LAMBDA x : B(x = 0)), "equal: compares as equal")
(* the comparison helpers: f names the type, x and y are values *)
Helper(s, ev) == IF ev.e # 0 THEN Bad(s, "no failure") ELSE Tell(s, ev.r = Cmp(ev.x, ev.y), Cmp(ev.x, ev.y))
=============================================================================
