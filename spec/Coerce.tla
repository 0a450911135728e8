------------------------------- MODULE Coerce -------------------------------
(* What a value becomes when it is coerced to a Thrift type.  A value is
   [g, b, d, x, kb, kd, kx]: its sort g, and by sort
     "bool" b = <<0 or 1>>          "int"  b = nine bytes, two's complement
     "flt"  b = the bits of the double, kx = 32 if only a single precision one
     "txt", "bin" b = bytes; kd = 1: they read as the double d, 2: as none
     "num"  (a Numeric) b = its integer (if kb = 1), d = its double (kd), x = its text (kx = 1; 2: any)
     "enum" b = nine bytes, x = its name
     "nil", "list", "set", "map", "struct", "other".                        *)
EXTENDS Integers, Sequences, Bytes
Mk(g, b) == [g |-> g, b |-> b, d |-> <<>>, x |-> <<>>, kb |-> 1, kd |-> 0, kx |-> 0]
Zeros(n) == [i \in 1..n |-> 0]
Zero(b) == \A i \in 1..Len(b) : b[i] = 0
Width(t) == CASE t = 3 -> 1 [] t = 6 -> 2 [] t = 8 -> 4 [] t = 10 -> 8
IntTypes == {3, 6, 8, 10}
TextTypes == {11, 16, 17}
ContOf(t) == CASE t = 12 -> "struct" [] t = 13 -> "map" [] t = 14 -> "set" [] t = 15 -> "list"
Conts == {"struct", "map", "set", "list"}
(* ---- nine-byte integers *)
RECURSIVE AddAt(_, _, _), MulAdd(_, _, _, _), DivFrom(_, _, _), DigitsOf(_), Strip(_), MagOf(_, _)
AddAt(b, i, c) == IF c = 0 \/ i = 0 THEN b ELSE AddAt([b EXCEPT ![i] = (@ + c) % 256], i - 1, (b[i] + c) \div 256)
Negate(b) == AddAt([i \in 1..Len(b) |-> 255 - b[i]], Len(b), 1)
Mag(b) == IF IsNeg(b) THEN Negate(b) ELSE b
MulAdd(b, i, m, c) == IF i = 0 THEN b ELSE MulAdd([b EXCEPT ![i] = ((@ * m) + c) % 256], i - 1, m, ((b[i] * m) + c) \div 256)
DivFrom(b, i, r) == IF i > Len(b) THEN [q |-> b, r |-> r]
                    ELSE LET n == (256 * r) + b[i] IN DivFrom([b EXCEPT ![i] = n \div 10], i + 1, n % 10)
DigitsOf(b) == LET x == DivFrom(b, 1, 0) IN (IF Zero(x.q) THEN <<>> ELSE DigitsOf(x.q)) \o <<48 + x.r>>
Decimal(b) == IF IsNeg(b) THEN <<45>> \o DigitsOf(Negate(b)) ELSE DigitsOf(b)
Fits64(b) == b = SignExt(LowBytes(b, 8), 9)
(* ---- text *)
Body(x) == IF x # <<>> /\ x[1] \in {43, 45} THEN Tail(x) ELSE x
IsInt(x) == Body(x) # <<>> /\ \A i \in 1..Len(Body(x)) : Body(x)[i] \in 48..57
Strip(x) == IF Len(x) > 1 /\ x[1] = 48 THEN Strip(Tail(x)) ELSE x
MagOf(x, b) == IF x = <<>> THEN b ELSE MagOf(Tail(x), MulAdd(b, 9, 10, Head(x) - 48))
(* <<>>: not the decimal form of a 64-bit integer *)
Reads(x) == IF ~IsInt(x) THEN <<>>
            ELSE LET s == Strip(Body(x))
                     m == MagOf(s, Zeros(9))
                     v == IF x[1] = 45 THEN Negate(m) ELSE m
                 IN IF Len(s) > 19 \/ ~Fits64(v) THEN <<>> ELSE v
(* surely no number of any form *)
NoNumber(x) == Body(x) = <<>> \/ Body(x)[1] \notin ((48..57) \cup {46, 73, 105, 78, 110})
False == <<102, 97, 108, 115, 101>>
True == <<116, 114, 117, 101>>
(* ---- doubles *)
One == <<63, 240, 0, 0, 0, 0, 0, 0>>
MinusZero == <<128, 0, 0, 0, 0, 0, 0, 0>>
DZero(d) == Zero(Tail(d)) /\ d[1] \in {0, 128}
DNaN(d) == d[1] % 128 = 127 /\ d[2] >= 240 /\ (d[2] > 240 \/ ~Zero(SubSeq(d, 3, 8)))
(* the nearest double of an integer, halfway to the even one *)
I2D(b) ==
  LET bits == Bits(Mag(b))
      h == HighBit(bits)
      at(i) == IF i >= 1 THEN bits[i] ELSE 0
      e == h + 1022
      pat == [i \in 1..64 |-> IF i <= 52 THEN at(h - 53 + i) ELSE IF i = 64 THEN (IF IsNeg(b) THEN 1 ELSE 0) ELSE (e \div Pow2(i - 53)) % 2]
      up == at(h - 53) = 1 /\ (at(h - 52) = 1 \/ \E i \in 1..(h - 54) : bits[i] = 1)
  IN IF Zero(b) THEN Zeros(8) ELSE LET r == BytesOf(pat, 8) IN IF up THEN AddAt(r, 8, 1) ELSE r
(* the integer part of a double; <<>>: none of 64 bits *)
D2I(d) ==
  LET e == (16 * (d[1] % 128)) + (d[2] \div 16) - 1023
      f == Bits(d)
      sig(i) == IF i = 53 THEN 1 ELSE IF i \in 1..52 THEN f[i] ELSE 0
      m == BytesOf([i \in 1..72 |-> sig(i + 52 - e)], 9)
  IN IF e < 0 THEN Zeros(9) ELSE IF e >= 63 THEN <<>> ELSE IF IsNeg(d) THEN Negate(m) ELSE m

(* ---- what v becomes as type t: ok "yes", "no" or "any"; if "yes", how it
   comes out: "b": the bytes b; "real": text that reads as the double b;
   "same": the very value; "empty"; "nil"; "any"                          *)
R(b) == [ok |-> "yes", how |-> "b", b |-> b, w |-> 64]
Real(d, w) == [ok |-> "yes", how |-> "real", b |-> d, w |-> w]
How(h) == [ok |-> "yes", how |-> h, b |-> <<>>, w |-> 64]
No == [ok |-> "no", how |-> "any", b |-> <<>>, w |-> 64]
Any == [ok |-> "any", how |-> "any", b |-> <<>>, w |-> 64]
AsInt(v, n) ==
  LET cut(b) == IF b = <<>> THEN Any ELSE R(LowBytes(b, n)) IN
  CASE v.g = "nil" -> R(Zeros(n))
    [] v.g = "bool" -> R(LowBytes(Zeros(8) \o v.b, n))
    [] v.g \in {"int", "enum"} -> cut(v.b)
    [] v.g = "flt" -> cut(D2I(v.b))
    [] v.g = "txt" -> LET b == Reads(v.b) IN IF b = <<>> THEN No ELSE cut(b)
    [] v.g = "num" -> IF v.kb = 1 THEN cut(v.b) ELSE Any
    [] v.g = "other" -> No
    [] OTHER -> Any
AsDouble(v) ==
  CASE v.g = "nil" -> R(Zeros(8))
    [] v.g = "bool" -> R(IF v.b[1] = 0 THEN Zeros(8) ELSE One)
    [] v.g \in {"int", "enum"} -> R(I2D(v.b))
    [] v.g = "flt" -> R(v.b)
    [] v.g = "txt" -> IF v.kd = 1 THEN R(v.d) ELSE IF v.kd = 2 THEN No
                      ELSE LET b == Reads(v.b) IN IF b # <<>> THEN R(IF Zero(b) /\ v.b[1] = 45 THEN MinusZero ELSE I2D(b))
                           ELSE IF NoNumber(v.b) THEN No ELSE Any
    [] v.g = "num" -> IF v.kd = 1 THEN R(v.d) ELSE Any
    [] v.g = "other" -> No
    [] OTHER -> Any
AsBool(v) ==
  LET is(x) == R(<<IF x THEN 1 ELSE 0>>) IN
  CASE v.g = "nil" -> is(FALSE)
    [] v.g \in {"bool", "int", "enum"} -> is(~Zero(v.b))
    [] v.g = "flt" -> is(~DZero(v.b))
    [] v.g = "txt" -> is(v.b \notin {<<>>, <<48>>, False})
    [] v.g = "bin" -> is(v.b \notin {<<>>, <<0>>})
    [] v.g = "num" -> IF v.kb = 1 /\ ~Zero(v.b) THEN is(TRUE) ELSE IF v.kb = 1 /\ v.kd = 1 /\ DZero(v.d) THEN is(FALSE) ELSE Any
    [] v.g = "other" -> No
    [] OTHER -> Any
AsText(v) ==
  CASE v.g \in {"txt", "bin"} -> R(v.b)
    [] v.g = "int" -> R(Decimal(v.b))
    [] v.g = "bool" -> R(IF v.b[1] = 0 THEN False ELSE True)
    [] v.g = "flt" -> Real(v.b, IF v.kx = 32 THEN 32 ELSE 64)
    [] v.g = "num" -> IF v.kx = 1 THEN R(v.x) ELSE IF v.kx = 0 /\ v.kd = 1 THEN Real(v.d, 64) ELSE Any
    [] v.g = "enum" -> R(v.x)
    [] v.g = "other" -> No
    [] OTHER -> Any
To(v, t) ==
  CASE t \in {0, 1} -> How("nil")
    [] t = 2 -> AsBool(v)
    [] t \in IntTypes -> AsInt(v, Width(t))
    [] t = 4 -> AsDouble(v)
    [] t \in TextTypes -> IF v.g = "nil" THEN R(<<>>) ELSE AsText(v)
    [] t = 18 -> IF v.g = "nil" THEN How("nil") ELSE AsText(v)
    [] OTHER -> IF v.g = "nil" THEN How("empty") ELSE IF v.g = ContOf(t) THEN How("same") ELSE No
(* the Go type of a value of type t *)
GoOf(t) == CASE t \in {0, 1} -> "nil" [] t = 2 -> "bool" [] t = 3 -> "u8" [] t = 4 -> "f64" [] t = 6 -> "i16" [] t = 8 -> "i32" [] t = 10 -> "i64"
             [] t \in TextTypes -> "str" [] t = 18 -> "bin" [] OTHER -> ContOf(t)
(* v as type t, having come out as the bytes b *)
After(v, t, b) ==
  CASE t \in {0, 1} -> Mk("nil", <<>>)
    [] t = 2 -> Mk("bool", b)
    [] t = 3 -> Mk("int", Zeros(8) \o b)
    [] t \in IntTypes -> Mk("int", SignExt(b, 9))
    [] t = 4 -> Mk("flt", b)
    [] t \in TextTypes \cup {18} ->
         IF t = 18 /\ v.g = "nil" THEN v
         ELSE LET m == Mk(IF t = 18 THEN "bin" ELSE "txt", b)
                  known == v.g \in {"txt", "bin"} \/ (v.g = "num" /\ v.kd = 1 /\ v.kx # 2) \/ (v.g = "flt" /\ v.kx # 32)
              IN IF known THEN [m EXCEPT !.kd = IF v.g = "flt" THEN 1 ELSE v.kd, !.d = IF v.g = "flt" THEN v.b ELSE v.d] ELSE m
    [] OTHER -> IF v.g = "nil" THEN Mk(ContOf(t), <<>>) ELSE v

(* ---- recorded events *)
Go(s) == [v |-> "go", s |-> s, want |-> ""]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
EqD(a, b) == a = b \/ (DNaN(a) /\ b # <<>> /\ DNaN(b))
TypeOf(v) == CASE v.g = "nil" -> {1} [] v.g = "bool" -> {2} [] v.g = "flt" -> {4} [] v.g = "txt" -> {11} [] v.g = "bin" -> {18}
               [] v.g \in Conts -> {CHOOSE t \in 12..15 : ContOf(t) = v.g} [] OTHER -> 0..127
TypeOfGo == [int |-> 8, int8 |-> 3, int16 |-> 6, int32 |-> 8, int64 |-> 10, byte |-> 3]
CStep(c, s, ev) ==
  IF ev.e # 0 THEN Bad(s, "no panic")
  ELSE CASE ev.o = "To" ->
         LET r == To(s, ev.t)
             good == ev.rt = GoOf(ev.t) /\
                     CASE r.how = "b" -> IF ev.t = 4 THEN EqD(r.b, ev.b) ELSE ev.b = r.b
                       [] r.how = "real" -> EqD(r.b, IF r.w = 32 THEN ev.pd32 ELSE ev.pd)
                       [] r.how = "same" -> ev.same = 1
                       [] r.how = "empty" -> ev.len = 0
                       [] OTHER -> TRUE
             nilbin == r.how = "nil" /\ (ev.rt = "nil" \/ (ev.rt = GoOf(ev.t) /\ ev.b = <<>>))
         IN IF r.ok # "any" /\ (ev.ok = 1) # (r.ok = "yes") THEN Bad(s, r)
            ELSE IF ev.ok = 0 THEN Go(s)
            ELSE IF ~(IF r.how = "nil" THEN nilbin ELSE good) THEN Bad(s, <<GoOf(ev.t), r>>)
            ELSE Go(IF ev.rt = "nil" THEN Mk("nil", <<>>) ELSE After(s, ev.t, ev.b))
       [] ev.o = "TypeOf" ->
         IF s = c.src /\ s.g = "int" /\ c.go \in DOMAIN TypeOfGo THEN (IF ev.t = TypeOfGo[c.go] THEN Go(s) ELSE Bad(s, TypeOfGo[c.go]))
         ELSE IF s.g # "int" /\ c.go # "stringer" /\ ev.t \notin TypeOf(s) THEN Bad(s, TypeOf(s)) ELSE Go(s)
       [] ev.o = "View" ->
         IF s.g # "num" THEN Go(s)
         ELSE IF s.kb = 1 /\ (ev.i64 # LowBytes(s.b, 8) \/ ev.i # LowBytes(s.b, 8) \/ ev.i32 # LowBytes(s.b, 4) \/ ev.i16 # LowBytes(s.b, 2) \/ ev.by # LowBytes(s.b, 1)) THEN Bad(s, <<"integer", s.b>>)
         ELSE IF s.kd = 1 /\ (~EqD(s.d, ev.f64) \/ ev.f32 = 0) THEN Bad(s, <<"double", s.d>>)
         ELSE IF s.kx = 1 /\ ev.s # s.x THEN Bad(s, <<"text", s.x>>)
         ELSE IF s.kx = 0 /\ s.kd = 1 /\ ~EqD(s.d, ev.pd) THEN Bad(s, <<"text that reads as", s.d>>)
         ELSE Go(s)
=============================================================================
