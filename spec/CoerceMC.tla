------------------------------ MODULE CoerceMC ------------------------------
(* Every chain of coercions of every small value.
   Fault: "" | "widen" (bytes of a number are not extended by its sign) |
   "inverted" (text is taken exactly if it is no number) | "round" (halves
   are rounded up): must violate an invariant each.                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Depth, Fault
K == INSTANCE Coerce
VARIABLES src, v, hist, last
vars == <<src, v, hist, last>>
I(b) == K!Mk("int", K!SignExt(b, 9))
Txt(x) == K!Mk("txt", x)
Num(b, d, x) == [g |-> "num", b |-> K!SignExt(b, 9), d |-> d, x |-> x, kb |-> 1, kd |-> 1, kx |-> 1]
Sources ==
  {I(<<0>>), I(<<1>>), I(<<255>>), I(<<127>>), I(<<128>>), I(<<0, 255>>), I(<<1, 44>>), I(<<128, 0>>), I(<<127, 255, 255, 255>>), I(<<128, 0, 0, 0>>),
   I(<<0, 32, 0, 0, 0, 0, 0, 1>>), I(<<0, 32, 0, 0, 0, 0, 0, 3>>), I(<<127, 255, 255, 255, 255, 255, 255, 255>>), I(<<128, 0, 0, 0, 0, 0, 0, 0>>), I(<<0, 255, 255, 255, 255, 255, 255, 255, 255>>)}
  \cup {Txt(<<>>), Txt(<<48>>), Txt(<<45, 49>>), Txt(<<51, 48, 48>>), Txt(<<120>>), Txt(K!False), Txt(<<43, 48, 55>>), Txt(<<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>), K!Mk("bin", <<49>>), K!Mk("bin", <<0>>)}
  \cup {K!Mk("bool", <<0>>), K!Mk("bool", <<1>>), K!Mk("flt", K!One), K!Mk("flt", K!MinusZero), K!Mk("flt", <<192, 4, 0, 0, 0, 0, 0, 0>>), K!Mk("flt", <<127, 240, 0, 0, 0, 0, 0, 0>>), K!Mk("flt", <<67, 64, 0, 0, 0, 0, 0, 0>>)}
  \cup {Num(<<1>>, K!One, <<49>>), [K!Mk("enum", K!SignExt(<<2>>, 9)) EXCEPT !.x = <<84>>], K!Mk("nil", <<>>), K!Mk("list", <<>>), K!Mk("struct", <<>>), K!Mk("other", <<>>)}
Types == {2, 3, 4, 6, 8, 10, 11, 12, 15, 18}
Do(x, t) == LET r == K!To(x, t) IN
  CASE Fault = "widen" /\ t = 6 /\ x.g = "int" -> K!R(K!LowBytes(K!Zeros(1) \o K!LowBytes(x.b, 1), 2))
    [] Fault = "inverted" /\ t \in {6, 8, 10} /\ x.g = "txt" -> IF r.ok = "no" THEN K!R(K!Zeros(K!Width(t))) ELSE K!No
    [] Fault = "round" /\ t = 4 /\ x.g = "int" /\ ~K!Zero(x.b) /\ K!HighBit(K!Bits(K!Mag(x.b))) > 53 -> K!R(K!AddAt(r.b, 8, 1))
    [] OTHER -> r
(* where the specification leaves the outcome open the chain ends *)
Out(x, t, r) == IF r.how = "b" THEN K!After(x, t, r.b) ELSE IF r.how \in {"same", "empty", "nil"} THEN K!After(x, t, <<>>) ELSE x
Init == src \in Sources /\ v = src /\ hist = <<>> /\ last = <<>>
Next == Len(hist) < Depth /\ \E t \in Types :
          LET r == Do(v, t) IN r.how # "real" /\ r.ok # "any" /\ hist' = Append(hist, t) /\ v' = Out(v, t, r) /\ last' = r /\ UNCHANGED src
Spec == Init /\ [][Next]_vars
Typed == hist # <<>> /\ last.ok = "yes" => LET t == hist[Len(hist)] IN
  CASE t \in K!IntTypes -> Len(last.b) = K!Width(t) [] t = 4 -> Len(last.b) = 8 [] t = 2 -> last.b \in {<<0>>, <<1>>} [] OTHER -> TRUE
(* what has the type stays as it is *)
Settled == hist # <<>> /\ last.ok = "yes" /\ last.how = "b" => LET r == Do(v, hist[Len(hist)]) IN r.how = "b" /\ r.b = last.b
(* text of a number says the number *)
TextTrip == v.g = "int" /\ K!Fits64(v.b) => LET r == Do(v, 11) IN \A t \in K!IntTypes : Do(K!After(v, 11, r.b), t).b = Do(v, t).b
(* narrowing in two steps is narrowing in one *)
Narrow == v.g = "int" => LET w == K!After(v, 10, Do(v, 10).b)  u == K!After(w, 8, Do(w, 8).b) IN \A t \in {3, 6} : Do(w, t).b = Do(v, t).b /\ Do(u, t).b = Do(v, t).b
(* doubles hold 53-bit integers, and are monotone beyond *)
Small(b) == K!HighBit(K!Bits(K!Mag(b))) <= 53
DoubleTrip == v.g = "int" => LET d == K!After(v, 4, Do(v, 4).b)  r == Do(d, 10) IN
  IF Small(v.b) THEN r.b = Do(v, 10).b
  ELSE r.ok = "yes" => LET back == K!SignExt(r.b, 9) IN Do(I(back), 4).b = d.b
Truth == v.g = "int" => (Do(v, 2).b = <<0>>) = K!Zero(v.b)
Emit == Len(hist) = Depth /\ IOEnv.EMIT = "1" => PrintT("SCRIPT " \o ToJson([src |-> src, ops |-> hist]))
=============================================================================
