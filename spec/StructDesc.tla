----------------------------- MODULE StructDesc -----------------------------
(* Descriptions: fields (id, type, name), structs (lists of fields with
   distinct ids and names) and messages (name, type, sequence number).       *)
EXTENDS Values, TLC
Go(s) == [v |-> "go", s |-> s, want |-> ""]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
Tell(s, ok, want) == IF ok THEN Go(s) ELSE Bad(s, want)
B(x) == IF x THEN 1 ELSE 0
Anonymous == [id |-> 0, t |-> TStop, name |-> <<>>]
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Decimal(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
(* <TField name:'N' type:T field-id:I> *)
FieldText(f) == <<60,84,70,105,101,108,100,32,110,97,109,101,58,39>> \o f.name \o <<39,32,116,121,112,101,58>> \o Decimal(f.t)
                \o <<32,102,105,101,108,100,45,105,100,58>> \o Decimal(f.id) \o <<62>>
(* fields are the same by id and type; they come in the order of id, type, name *)
SameField(f, g) == f.id = g.id /\ f.t = g.t
CmpField(f, g) == IF f.id # g.id THEN Sign(f.id - g.id) ELSE IF f.t # g.t THEN Sign(f.t - g.t) ELSE Lex(f.name, g.name)
FieldSet(fs) == {fs[i] : i \in 1..Len(fs)}
Ids(fs) == {[id |-> fs[i].id, t |-> fs[i].t] : i \in 1..Len(fs)}
ById(fs, i) == LET S == {f \in FieldSet(fs) : f.id = i} IN IF S = {} THEN Anonymous ELSE CHOOSE f \in S : TRUE
ByName(fs, n) == LET S == {f \in FieldSet(fs) : f.name = n} IN IF S = {} THEN Anonymous ELSE CHOOSE f \in S : TRUE
HasId(fs, i) == \E f \in FieldSet(fs) : f.id = i
HasName(fs, n) == \E f \in FieldSet(fs) : f.name = n
DStep(c, s, ev) ==
  LET fs == c.fields IN
  IF ev.e # 0 THEN Bad(s, "no failure") ELSE
  CASE ev.o = "Obs" -> IF ev.n # Len(fs) THEN Bad(s, <<"length", Len(fs)>>)
                       ELSE IF ev.name # c.name THEN Bad(s, <<"name", c.name>>)
                       ELSE Tell(s, Len(ev.it) = Len(fs) /\ FieldSet(ev.it) = FieldSet(fs), <<"each field once", fs>>)
    [] ev.o = "ById" -> LET f == ById(fs, ev.i)
                        IN IF ev.f # f \/ ev.at # f THEN Bad(s, f)
                           ELSE IF ev.nm # f.name THEN Bad(s, f.name)
                           ELSE Tell(s, ev.has = B(HasId(fs, ev.i)) /\ ev.has16 \in {ev.has, -1}, <<"contained", HasId(fs, ev.i)>>)
    [] ev.o = "ByName" -> LET f == ByName(fs, ev.v)
                        IN IF ev.f # f THEN Bad(s, f)
                           ELSE IF ev.i # (IF HasName(fs, ev.v) THEN f.id ELSE -1) THEN Bad(s, "the id of the field, -1 if there is none")
                           ELSE Tell(s, ev.has = B(HasName(fs, ev.v)), <<"contained", HasName(fs, ev.v)>>)
    [] ev.o = "HasF" -> LET want == B(\E f \in FieldSet(fs) : SameField(f, ev.f)) IN Tell(s, ev.r = want, want)
    [] ev.o = "Field" -> Tell(s, ev.g = ev.f /\ ev.txt = FieldText(ev.f), <<"the field itself", FieldText(ev.f)>>)
    [] ev.o = "FldMat" ->
         LET n == Len(ev.fs) IN
         IF \E i, j \in 1..n : ev.eq[i][j] # B(SameField(ev.fs[i], ev.fs[j])) THEN Bad(s, "fields are the same by id and type")
         ELSE Tell(s, \A i, j \in 1..n : ev.c[i][j] = CmpField(ev.fs[i], ev.fs[j]), "in the order of id, type, name")
    [] ev.o = "DescMat" ->
         LET n == Len(ev.ds)  c0(i, j) == ev.c[i][j] IN
         IF \E i, j \in 1..n : ev.eq[i][j] # B(Ids(ev.ds[i]) = Ids(ev.ds[j])) THEN Bad(s, "descriptions are equal if they hold the same fields")
         ELSE IF \E i, j \in 1..n : c0(i, j) # -c0(j, i) THEN Bad(s, "compared the other way round, the sign turns")
         ELSE IF \E i, j \in 1..n : (c0(i, j) = 0) # (FieldSet(ev.ds[i]) = FieldSet(ev.ds[j])) THEN Bad(s, "compare as equal exactly with the same ids, types and names")
         ELSE Tell(s, \A i, j, k \in 1..n : c0(i, j) <= 0 /\ c0(j, k) <= 0 => c0(i, k) <= 0, "an order is transitive")
    [] ev.o = "Msg" -> (* a message and another one *)
         IF ev.g # ev.m THEN Bad(s, ev.m)
         ELSE IF ev.txt # (<<60,84,77,101,115,115,97,103,101,32,110,97,109,101,58,39>> \o ev.m.name \o <<39,32,116,121,112,101,58,32>> \o Decimal(ev.m.t)
                \o <<32,115,101,113,105,100,58>> \o Decimal(ev.m.id) \o <<62>>) THEN Bad(s, "its name, type and number")
         ELSE Tell(s, ev.eq = B(ev.m = ev.m2) /\ ev.req = ev.eq, "equal in name, type and number")
=============================================================================
