--------------------------- MODULE AppException ---------------------------
(* Application exceptions: a struct with the message as field 1 and the kind
   as field 2.  R(c, st, op) is the protocol's reader.  Fields come in any
   order; of repeated fields the last counts; everything else is skipped.   *)
EXTENDS Integers, Sequences, TLC
CONSTANT R(_, _, _)
Message == <<109, 101, 115, 115, 97, 103, 101>>
Type == <<116, 121, 112, 101>>
UNKNOWN == <<85, 78, 75, 78, 79, 87, 78>>
AppName == <<84, 65, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 69, 120, 99, 101, 112, 116, 105, 111, 110>>
Zero == <<0, 0, 0, 0>>

(* what the constructors make *)
Made(ev) == CASE ev.ctor = "full" -> [k |-> ev.k, v |-> ev.v]
              [] ev.ctor = "type" -> [k |-> ev.k, v |-> UNKNOWN]
              [] ev.ctor = "message" -> [k |-> Zero, v |-> ev.v]
              [] OTHER -> [k |-> Zero, v |-> UNKNOWN]

(* the write calls that carry the exception x: the default values may be left out *)
Forms(x) ==
  LET m == <<[o |-> "FldB", name |-> Message, t |-> 11, id |-> 1], [o |-> "Str", v |-> x.v], [o |-> "FldE"]>>
      k == <<[o |-> "FldB", name |-> Type, t |-> 8, id |-> 2], [o |-> "I32", v |-> x.k], [o |-> "FldE"]>>
      bodies == {m \o k, k \o m} \cup (IF x.v = <<>> THEN {k} ELSE {}) \cup (IF x.k = Zero THEN {m} ELSE {})
                \cup (IF x.v = <<>> /\ x.k = Zero THEN {<<>>} ELSE {})
  IN {<<[o |-> "StrB", name |-> AppName]>> \o b \o <<[o |-> "Stop"], [o |-> "StrE"]>> : b \in bodies}

(* reading one: [r, st, res, ek] as of the protocols' readers *)
Fail(st, a) == [r |-> a.r, st |-> st, res |-> <<>>, ek |-> -1]
RECURSIVE Fields(_, _, _, _)
Fields(c, st, x, r) ==
  LET f == R(c, st, [o |-> "RFldB"])
      Worse(a) == IF a.r = "okerr" THEN "okerr" ELSE r
      Next(a, y) == LET e == R(c, a.st, [o |-> "RFldE"])
                    IN IF e.r \in {"err", "any"} THEN Fail(st, e) ELSE Fields(c, e.st, y, Worse(a))
  IN IF f.r = "okerr" THEN Fail(st, [r |-> "any"])
     ELSE IF f.r # "ok" THEN Fail(st, f)
     ELSE IF f.res.t = 0
     THEN LET e == R(c, f.st, [o |-> "RStrE"]) IN IF e.r # "ok" THEN Fail(st, e) ELSE [r |-> r, st |-> e.st, res |-> x, ek |-> -1]
     ELSE LET id == IF "name" \in DOMAIN f.res THEN (CASE f.res.name = Message -> 1 [] f.res.name = Type -> 2 [] OTHER -> -1) ELSE f.res.id
              t == f.res.t
          IN IF id = 1 /\ t \in {11, 127}
             THEN LET a == R(c, f.st, [o |-> "RStr"]) IN IF a.r \in {"err", "any"} THEN Fail(st, a) ELSE Next(a, [x EXCEPT !.v = a.res.v])
             ELSE IF id = 2 /\ t \in {8, 127}
             THEN LET a == R(c, f.st, [o |-> "RI32"]) IN IF a.r \in {"err", "any"} THEN Fail(st, a) ELSE Next(a, [x EXCEPT !.k = a.res.v])
             ELSE LET a == R(c, f.st, [o |-> "RSkip", t |-> t, d |-> 1000000]) IN IF a.r \in {"err", "any"} THEN Fail(st, a) ELSE Next(a, x)
Read(c, st) ==
  LET a == R(c, st, [o |-> "RStrB"])
  IN IF a.r \in {"err", "any"} THEN Fail(st, a) ELSE Fields(c, a.st, [k |-> Zero, v |-> <<>>], a.r)
=============================================================================
