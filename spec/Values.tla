------------------------------- MODULE Values -------------------------------
(* Thrift values and their order.  A value is [t, b, a, v]: its type, its
   bytes (a scalar, big-endian; the name of a struct), its parameters (element
   type; key and value type) and its parts (elements; keys and values in turn;
   the fields of a struct, each [t, b, a, v] = type, name, <<id>>, <<attribute>>).
   The absent value has type -1.                                            *)
EXTENDS Integers, Sequences, FiniteSets
TStop == 0  TVoid == 1  TBool == 2  TByte == 3  TDouble == 4  TI16 == 6  TI32 == 8  TI64 == 10
TString == 11  TStruct == 12  TMap == 13  TSet == 14  TList == 15  TBinary == 18
Texts == {11, 16, 17}
Nil == [t |-> -1, b |-> <<>>, a |-> <<>>, v |-> <<>>]
Kind(t) == IF t \in Texts THEN TString ELSE t
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0

(* byte strings, as in a dictionary *)
RECURSIVE LexAt(_, _, _)
LexAt(a, b, i) == IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
                  ELSE IF i > Len(b) THEN 1
                  ELSE IF a[i] # b[i] THEN Sign(a[i] - b[i])
                  ELSE LexAt(a, b, i + 1)
Lex(a, b) == LexAt(a, b, 1)
(* two's complement: as unsigned numbers once the sign bit is turned *)
Flip(b) == [b EXCEPT ![1] = (@ + 128) % 256]
(* sign and magnitude *)
MinusZero(b) == b[1] = 128 /\ \A i \in 2..Len(b) : b[i] = 0
PlusZero(b) == IF MinusZero(b) THEN [b EXCEPT ![1] = 0] ELSE b
DKey(b) == LET x == PlusZero(b) IN IF x[1] >= 128 THEN [i \in 1..Len(x) |-> 255 - x[i]] ELSE Flip(x)
NaN(b) == b[1] \in {127, 255} /\ b[2] >= 240 /\ (b[2] > 240 \/ \E i \in 3..8 : b[i] # 0)

(* equality: -0 is 0, sets and maps do not depend on the order of their parts *)
RECURSIVE Norm(_)
Norm(x) == CASE x.t = -1 -> <<-1>>
             [] x.t = TDouble -> <<x.t, PlusZero(x.b)>>
             [] x.t = TList -> <<x.t, x.a, [i \in 1..Len(x.v) |-> Norm(x.v[i])]>>
             [] x.t = TSet -> <<x.t, x.a, {Norm(x.v[i]) : i \in 1..Len(x.v)}>>
             [] x.t = TMap -> <<x.t, x.a, {<<Norm(x.v[2*i - 1]), Norm(x.v[2*i])>> : i \in 1..(Len(x.v) \div 2)}>>
             [] x.t = TStruct -> <<x.t, x.b, {<<x.v[i].a[1], x.v[i].t, x.v[i].b, Norm(x.v[i].v[1])>> : i \in 1..Len(x.v)}>>
             [] OTHER -> <<Kind(x.t), x.b>>
Eq(x, y) == Norm(x) = Norm(y)

(* types whose values have a natural order; of sets, maps and structs only the
   equality is laid down, besides that the order is one *)
RECURSIVE Natural(_)
Natural(x) == IF x.t = TList THEN \A i \in 1..Len(x.v) : Natural(x.v[i]) ELSE x.t \notin {TSet, TMap, TStruct}
RECURSIVE Cmp(_, _), CmpAt(_, _, _)
Cmp(x, y) ==
  IF x.t = -1 \/ y.t = -1 THEN (IF x.t = y.t THEN 0 ELSE IF x.t = -1 THEN -1 ELSE 1)
  ELSE CASE Kind(x.t) \in {TI16, TI32, TI64} -> Lex(Flip(x.b), Flip(y.b))
         [] x.t = TDouble -> Lex(DKey(x.b), DKey(y.b))
         [] x.t = TList -> IF x.a # y.a THEN Sign(x.a[1] - y.a[1])
                          ELSE IF Len(x.v) # Len(y.v) THEN Sign(Len(x.v) - Len(y.v))
                          ELSE CmpAt(x.v, y.v, 1)
         [] OTHER -> Lex(x.b, y.b)
CmpAt(a, b, i) == IF i > Len(a) THEN 0 ELSE LET c == Cmp(a[i], b[i]) IN IF c # 0 THEN c ELSE CmpAt(a, b, i + 1)

(* a table of comparisons, c[i][j] of value i with value j, is an order *)
Order(vs, c) == LET n == Len(vs) IN
  IF \E i, j \in 1..n : c[i][j] # -c[j][i] THEN "compared the other way round, the sign turns"
  ELSE IF \E i, j \in 1..n : (c[i][j] = 0) # Eq(vs[i], vs[j]) THEN "equal values and only those compare as equal"
  ELSE IF \E i, j \in 1..n : Natural(vs[i]) /\ Natural(vs[j]) /\ c[i][j] # Cmp(vs[i], vs[j]) THEN "the natural order"
  ELSE IF \E i, j \in 1..n : c[i][j] <= 0 /\ \E k \in 1..n : c[j][k] <= 0 /\ c[i][k] > 0 THEN "an order is transitive"
  ELSE ""
=============================================================================
