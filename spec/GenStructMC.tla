----------------------------- MODULE GenStructMC -----------------------------
(* Every small object of the structs of a program (GENENV), sent between the
   versions of its struct and read into each other.
   Deviation: see GenStruct; each of them must violate an invariant.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Depth, Deviation
K == INSTANCE GenStruct
Data == ndJsonDeserialize(IOEnv.GENENV)[1]
Env == Data.env
Versions == {Data.versions[n] : n \in 1..Len(Data.versions)}   \* structs whose fields have the same types by id
VARIABLES x, first, hist
vars == <<x, first, hist>>
Name(z) == z.v
V(t, v, a) == K!V(t, v, a)

RECURSIVE Dom(_, _), Product(_, _, _)
Product(fs, n, acc) ==
  IF n > Len(fs) THEN acc
  ELSE LET d == Dom(fs[n].t, fs[n].d) IN Product(fs, n + 1, {Append(s, e) : s \in acc, e \in d})
Objs(n) == {V("STRUCT", n, s) : s \in Product(Env[n], 1, {<<>>})}
Dom(T, d) ==
  (IF K!IsNil(d) THEN {} ELSE {d}) \cup
  CASE T.k = "I32" -> {V("I32", "0", <<>>), V("I32", "7", <<>>)}
    [] T.k = "STRING" -> {V("STRING", "", <<>>), V("STRING", "61", <<>>)}
    [] T.k = "BINARY" -> {K!Nil, V("BINARY", "", <<>>), V("BINARY", "00", <<>>)}
    [] T.k = "ENUM" -> {V("ENUM", "UNSET", <<>>), V("ENUM", "10", <<>>)}
    [] T.k \in {"LIST", "SET"} -> {K!Nil, V(T.k, K!HeldName(T.a[1]), <<>>)} \cup {V(T.k, K!HeldName(T.a[1]), <<e>>) : e \in {z \in Dom(T.a[1], K!Nil) : ~K!IsNil(z) /\ z.v # "UNSET"}}
    [] T.k = "MAP" -> LET h == K!HeldName(T.a[1]) \o ":" \o K!HeldName(T.a[2]) IN
                      {K!Nil, V("MAP", h, <<>>), V("MAP", h, <<CHOOSE e \in Dom(T.a[1], K!Nil) : e.v # "", CHOOSE e \in Dom(T.a[2], K!Nil) : e.v # "">>)}
    [] T.k = "STRUCT" -> {K!Nil} \cup Objs(T.n)

\* new objects with one field changed
Few(n) == {K!NewObj(Env, n)} \cup UNION {{[K!NewObj(Env, n) EXCEPT !.a[k] = e] : e \in Dom(Env[n][k].t, Env[n][k].d)} : k \in 1..Len(Env[n])}
Junk == {[t |-> "FIELD", v |-> "", i |-> 77, a |-> <<V("STRING", "6a", <<>>)>>],
         [t |-> "FIELD", v |-> "", i |-> 5000, a |-> <<V("LIST", "I32", <<V("I32", "1", <<>>)>>)>>]}
Insert(s, k, e) == SubSeq(s, 1, k) \o <<e>> \o SubSeq(s, k + 1, Len(s))
Reverse(s) == [n \in 1..Len(s) |-> s[Len(s) + 1 - n]]
Anonymous(w) == [w EXCEPT !.a = [n \in 1..Len(w.a) |-> [w.a[n] EXCEPT !.v = ""]]]
\* what may arrive at a reader of struct n
Arrivals(n) == {Anonymous(K!WireOf(Env, y)) : y \in Few(n)}
               \cup {[w EXCEPT !.a = Insert(w.a, k, j)] : w \in {Anonymous(K!WireOf(Env, y)) : y \in Few(n)}, k \in {0, 1}, j \in Junk}
Fits(w, n) == \A k \in 1..Len(w.a) : w.a[k].i >= 0

Init == x \in UNION {Objs(n) : n \in Versions} /\ first = x /\ hist = <<>>
Send(n) == x' = K!Sent(Env, x, n) /\ hist' = Append(hist, [o |-> "Trip", s |-> n, w |-> K!Nil])
Read(w) == x' = K!ReadInto(Env, x, w) /\ hist' = Append(hist, [o |-> "Read", s |-> "", w |-> w])
Small == Cardinality({k \in 1..Len(x.a) : ~K!Eq(x.a[k], K!Initial(Env[x.v][k]))}) <= 2
Next == /\ Len(hist) < Depth /\ UNCHANGED first
        /\ \/ \E n \in Versions : Send(n)
           \/ Small /\ \E w \in Arrivals(x.v) : Fits(w, x.v) /\ Read(w)
Spec == Init /\ [][Next]_vars

Field(n, k) == Env[n][k]
\* an object arrives as it was sent, what is not set as its default
RECURSIVE Arrived(_, _)
Arrived(sent, got) ==
  \A k \in 1..Len(sent.a) :
    LET f == Field(sent.v, k) IN
    IF ~K!IsSet(f, sent.a[k]) THEN K!Eq(got.a[k], K!Initial(f))
    ELSE IF f.t.k = "STRUCT" THEN ~K!IsNil(got.a[k]) /\ Arrived(sent.a[k], got.a[k])
    ELSE K!Eq(got.a[k], sent.a[k])
RoundTrip == Arrived(x, K!Sent(Env, x, x.v))
\* and a second time changes nothing
Stable == LET y == K!Sent(Env, x, x.v) IN K!Eq(K!Sent(Env, y, y.v), y)
\* through another version and back, the fields that both know survive
Versioned == \A n \in Versions \ {x.v} :
  LET back == K!Sent(Env, K!Sent(Env, x, n), x.v) IN
  \A k \in 1..Len(x.a) :
    LET f == Field(x.v, k) IN
    \A m \in 1..Len(Env[n]) :
      Env[n][m].i = f.i /\ K!IsSet(f, x.a[k]) /\ f.t.k # "STRUCT" =>
        LET there == K!Sent(Env, x, n).a[m] IN
        K!Eq(there, x.a[k]) /\ (K!IsSet(Env[n][m], there) => K!Eq(back.a[k], x.a[k]))
\* fields go out once each, in the order of their ids
Ordered == LET w == K!WireOf(Env, x) IN \A p, q \in 1..Len(w.a) : p < q => w.a[p].i < w.a[q].i
\* the order they come in does not matter, nor do fields nobody knows
AnyOrder == LET w == K!WireOf(Env, x)
                y == K!ReadInto(Env, K!NewObj(Env, x.v), w)
            IN /\ K!Eq(y, K!ReadInto(Env, K!NewObj(Env, x.v), [w EXCEPT !.a = Reverse(w.a)]))
               /\ \A j \in Junk : K!Eq(y, K!ReadInto(Env, K!NewObj(Env, x.v), [w EXCEPT !.a = Insert(w.a, 0, j)]))
\* a new object says nothing about its optional scalars
FreshIsSilent == LET w == K!WireOf(Env, K!NewObj(Env, x.v)) IN
  \A k \in 1..Len(Env[x.v]) : LET f == Field(x.v, k) IN
    f.r = "opt" /\ f.t.k \in K!Scalar \ {"BINARY", "ENUM"} => K!At(f, w) = {}
\* what is read does not depend on what was there
Replaced == Small => \A w \in Arrivals(x.v) : Fits(w, x.v) =>
  LET y == K!ReadInto(Env, x, w)
      z == K!ReadInto(Env, K!NewObj(Env, x.v), w)
  IN \A k \in 1..Len(x.a) : K!Eq(y.a[k], IF K!At(Field(x.v, k), w) = {} THEN x.a[k] ELSE z.a[k])
Emit == Len(hist) = Depth /\ IOEnv.EMIT = "1" => PrintT("SCRIPT " \o ToJson([first |-> first, ops |-> hist]))
=============================================================================
