------------------------------ MODULE GenStruct ------------------------------
(* What generated structs do with their values.

   Values, in memory and on the wire, are records [t, v, a, i]:
     scalars     t = the type, v = the value written out
     LIST SET    v = the element type, a = the elements
     MAP         v = "key:value" types, a = key, value, key, value, ...
     STRUCT      in memory: v = the struct, a = its fields in the order of
                 declaration; on the wire: a = FIELDs
     FIELD       v = the name, i = the id, a = <<the value>>
     NIL         nothing there
   An enum that has not been set is ENUM "UNSET".

   Declared types are [k, n, a]: kind, name of a struct or enum, the types of
   the elements.  env gives the fields of each struct, in the order of the
   declaration: [i, n, t, r, d], with r "opt", "def" or "req" and d the
   declared default, NIL if there is none.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* Deviant designs, for the check that the invariants are not vacuous:
\* "none", "zero" (an optional field counts as set when it differs from the
\* zero of its type instead of from its default), "stop" (an unknown field
\* ends the struct), "keep" (a nested struct is read into what is there
\* without its defaults), "order" (fields go out in the order of declaration)
CONSTANT Deviation

V(t, v, a) == [t |-> t, v |-> v, a |-> a, i |-> 0]
Nil == V("NIL", "", <<>>)
IsNil(x) == x.t = "NIL"
Scalar == {"BOOL", "BYTE", "I16", "I32", "I64", "DOUBLE", "STRING", "BINARY", "ENUM"}

\* ---- names of types ----
WireName(T) == IF T.k = "ENUM" THEN "I32" ELSE IF T.k = "BINARY" THEN "STRING" ELSE T.k
\* the library's containers know no enums
HeldName(T) == IF T.k = "ENUM" THEN "I32" ELSE T.k

\* ---- equality: sets and maps have no order ----
Pairs(s) == [n \in 1..(Len(s) \div 2) |-> <<s[(2 * n) - 1], s[2 * n]>>]
RECURSIVE Eq(_, _), EqAll(_, _, _)
EqAll(s, u, n) == IF n > Len(s) THEN TRUE ELSE IF Eq(s[n], u[n]) THEN EqAll(s, u, n + 1) ELSE FALSE
Eq(x, y) ==
  IF x.t # y.t \/ x.v # y.v \/ x.i # y.i \/ Len(x.a) # Len(y.a) THEN FALSE
  ELSE CASE x.t = "SET" ->
              \A n \in 1..Len(x.a) : Cardinality({m \in 1..Len(x.a) : Eq(x.a[m], x.a[n])}) = Cardinality({m \in 1..Len(y.a) : Eq(y.a[m], x.a[n])})
         [] x.t = "MAP" ->
              LET p == Pairs(x.a)
                  q == Pairs(y.a)
              IN \A n \in 1..Len(p) :
                   Cardinality({m \in 1..Len(p) : Eq(p[m][1], p[n][1]) /\ Eq(p[m][2], p[n][2])})
                   = Cardinality({m \in 1..Len(q) : Eq(q[m][1], p[n][1]) /\ Eq(q[m][2], p[n][2])})
         [] OTHER -> EqAll(x.a, y.a, 1)

\* the library's order does not tell an empty binary from none, and an enum
\* that is not set from the number its sentinel wraps to
RECURSIVE Blur(_)
Blur(x) == IF x.t = "BINARY" /\ x.v = "" THEN Nil
           ELSE IF x.t = "ENUM" /\ x.v = "UNSET" THEN V("ENUM", "2147483647", <<>>)
           ELSE [x EXCEPT !.a = [n \in 1..Len(x.a) |-> Blur(x.a[n])]]
\* ---- new objects ----
Zero(T) ==
  CASE T.k \in {"BYTE", "I16", "I32", "I64", "BOOL"} -> V(T.k, "0", <<>>)
    [] T.k = "DOUBLE" -> V("DOUBLE", "0000000000000000", <<>>)
    [] T.k = "STRING" -> V("STRING", "", <<>>)
    [] T.k = "ENUM" -> V("ENUM", "UNSET", <<>>)
    [] OTHER -> Nil
Initial(f) == IF IsNil(f.d) THEN Zero(f.t) ELSE f.d
NewObj(env, n) == V("STRUCT", n, [k \in 1..Len(env[n]) |-> Initial(env[n][k])])

\* ---- which fields are set ----
IsSet(f, x) ==
  IF IsNil(x) THEN FALSE
  ELSE IF x.t = "ENUM" THEN x.v # "UNSET"
  ELSE IF f.r # "opt" \/ f.t.k \in {"BINARY", "STRUCT"} THEN TRUE
  ELSE IF f.t.k \in {"LIST", "SET", "MAP"} THEN x.a # <<>> \/ (~IsNil(f.d) /\ f.d.a # <<>>)
  ELSE ~Eq(x, IF Deviation = "zero" THEN Zero(f.t) ELSE Initial(f))

\* ---- to the wire ----
ById(env, n) ==
  IF Deviation = "order" THEN [k \in 1..Len(env[n]) |-> k]
  ELSE SortSeq([k \in 1..Len(env[n]) |-> k], LAMBDA p, q : env[n][p].i < env[n][q].i)
RECURSIVE Wire(_, _, _)
Wire(env, T, x) ==
  CASE T.k \in Scalar -> V(WireName(T), x.v, <<>>)
    [] T.k \in {"LIST", "SET"} -> V(T.k, WireName(T.a[1]), [n \in 1..Len(x.a) |-> Wire(env, T.a[1], x.a[n])])
    [] T.k = "MAP" -> V("MAP", WireName(T.a[1]) \o ":" \o WireName(T.a[2]),
                        [n \in 1..Len(x.a) |-> Wire(env, T.a[IF (n % 2) = 1 THEN 1 ELSE 2], x.a[n])])
    [] T.k = "STRUCT" ->
         LET fs == env[T.n]
             set == SelectSeq(ById(env, T.n), LAMBDA k : IsSet(fs[k], x.a[k]))
         IN V("STRUCT", T.n, [m \in 1..Len(set) |->
               LET f == fs[set[m]] IN [t |-> "FIELD", v |-> f.n, i |-> f.i, a |-> <<Wire(env, f.t, x.a[set[m]])>>]])
StructT(n) == [k |-> "STRUCT", n |-> n, a |-> <<>>]
WireOf(env, x) == Wire(env, StructT(x.v), x)

\* ---- and back ----
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
\* field f of a struct stands at which places of a wire struct; a protocol that
\* knows no ids gives -1 for them
At(f, w) == {n \in 1..Len(w.a) : IF w.a[n].i < 0 THEN w.a[n].v = f.n ELSE w.a[n].i = f.i}
Known(env, n, w) == IF Deviation # "stop" THEN w
                    ELSE LET unk == {m \in 1..Len(w.a) : \A k \in 1..Len(env[n]) : m \notin At(env[n][k], w)}
                         IN IF unk = {} THEN w ELSE [w EXCEPT !.a = SubSeq(w.a, 1, (CHOOSE m \in unk : \A z \in unk : m <= z) - 1)]
RECURSIVE From(_, _, _, _), ReadInto(_, _, _)
From(env, T, w, old) ==
  CASE T.k \in Scalar -> V(T.k, w.v, <<>>)
    [] T.k \in {"LIST", "SET"} -> V(T.k, HeldName(T.a[1]), [n \in 1..Len(w.a) |-> From(env, T.a[1], w.a[n], Nil)])
    [] T.k = "MAP" -> V("MAP", HeldName(T.a[1]) \o ":" \o HeldName(T.a[2]),
                        [n \in 1..Len(w.a) |-> From(env, T.a[IF (n % 2) = 1 THEN 1 ELSE 2], w.a[n], Nil)])
    [] T.k = "STRUCT" -> ReadInto(env, IF Deviation = "keep" /\ ~IsNil(old) THEN old ELSE NewObj(env, T.n), w)
\* a field that is not on the wire stays what it is; of two with the same id
\* the last one counts
ReadInto(env, x, w0) ==
  LET fs == env[x.v]
      w == Known(env, x.v, w0)
  IN [x EXCEPT !.a = [k \in 1..Len(fs) |-> IF At(fs[k], w) = {} THEN x.a[k] ELSE From(env, fs[k].t, w.a[Max(At(fs[k], w))].a[1], x.a[k])]]
\* what a reader of struct n makes of object x of any version
Sent(env, x, n) == ReadInto(env, NewObj(env, n), WireOf(env, x))

\* ---- one observed call ----
Go(s) == [v |-> "go", s |-> s]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
GStep(env, x, ev) ==
  CASE ev.o = "New" -> LET y == NewObj(env, ev.s) IN
         IF ev.e # 0 THEN Bad(x, "a new object") ELSE IF ~Eq(ev.x, y) THEN Bad(x, <<"a new object with its defaults", y>>) ELSE Go(y)
    [] ev.o = "Const" -> IF ev.e # 0 \/ ~Eq(ev.x, ev.v) THEN Bad(x, <<"the declared constant", ev.v>>) ELSE Go(x)
    [] ev.o = "Set" -> IF ev.e # 0 THEN Bad(x, "the field is there and takes a value of its type") ELSE Go([x EXCEPT !.a[ev.f] = ev.v])
    [] ev.o = "Write" ->
         IF ev.e # 0 THEN Bad(x, "the object can be written")
         ELSE IF ev.bad # "" THEN Bad(x, <<"calls that make up one struct, not:", ev.bad>>)
         ELSE IF ~Eq(ev.w, WireOf(env, x)) \/ [n \in 1..Len(ev.w.a) |-> ev.w.a[n].i] # [n \in 1..Len(WireOf(env, x).a) |-> WireOf(env, x).a[n].i]
              THEN Bad(x, <<"the fields that are set, as declared", WireOf(env, x)>>)
         ELSE IF ev.lost # <<>> THEN Bad(x, <<"a protocol error is reported, also at calls", ev.lost>>)
         ELSE IF ev.more # <<>> THEN Bad(x, <<"nothing is written after a protocol error, also at calls", ev.more>>)
         ELSE Go(x)
    [] ev.o = "Read" -> LET y == ReadInto(env, x, ev.w) IN
         IF ev.e # 0 THEN Bad(x, "the struct can be read")
         ELSE IF ev.bad # "" THEN Bad(x, <<"the struct is read in order and to its end, not:", ev.bad>>)
         ELSE IF ~Eq(ev.x, y) THEN Bad(x, <<"the object that was sent", y>>)
         ELSE IF ev.lost # <<>> THEN Bad(x, <<"a protocol error is reported, also at calls", ev.lost>>)
         ELSE Go(y)
    [] ev.o = "Trip" -> LET y == Sent(env, x, ev.s) IN
         IF ev.e # 0 THEN Bad(x, "the object goes through")
         ELSE IF ~Eq(ev.x, y) THEN Bad(x, <<"the object that was sent", y>>)
         ELSE Go(y)
    [] ev.o = "Cmp" ->
         IF ev.e # 0 \/ ~ev.ok THEN Bad(x, "objects of the same struct can be compared")
         ELSE IF ev.c = 0 /\ ~Eq(Blur(x), Blur(ev.v)) THEN Bad(x, "the objects differ")
         ELSE IF ev.c # 0 /\ Eq(x, ev.v) THEN Bad(x, "the objects are equal")
         ELSE IF ev.rc # (0 - ev.c) THEN Bad(x, "the comparison the other way round gives the opposite")
         ELSE Go(x)
=============================================================================
