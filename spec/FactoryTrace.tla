---------------------------- MODULE FactoryTrace ----------------------------
(* Recorded histories of several products of factories side by side (kind
   "multi"): every object's own events follow the specification of its kind
   as if the others were not there; and servers with their factories.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES ci, oi, s, status
F == INSTANCE Factories
CT == INSTANCE CodecTrace
TT == INSTANCE TransportTrace
AllCases == ndJsonDeserialize(IOEnv.CASES)
Codec(c) == c.kind \in {"w", "r"}
Absent == [on |-> "no"]
Init0(c) == IF c.kind = "wire" THEN "serving" ELSE [i \in 1..Len(c.objs) |-> Absent]
Make(c) == IF Codec(c) THEN [on |-> "yes", s |-> CT!Init0(c)] ELSE [on |-> "yes", s |-> TT!Init0(F!Direct(c))]
Bad(st, want) == [v |-> "bad", s |-> st, want |-> want]
Go(st) == [v |-> "go", s |-> st, want |-> ""]
Step0(c, st, ev) ==
  IF c.kind = "wire" THEN F!SStep(c, st, ev)
  ELSE LET b == ev.ob  o == c.objs[b] IN
    IF ev.o = "Make" THEN IF ev.e = 0 THEN Go([st EXCEPT ![b] = Make(o)]) ELSE Bad(st, "a product")
    ELSE IF st[b].on = "over" THEN Go(st)
    ELSE IF "oth" \in DOMAIN ev /\ ev.oth # 0 THEN Bad(st, "the factory's own streams left alone")
    ELSE LET r == IF Codec(o) THEN CT!Step0(o, st[b].s, ev) ELSE TT!Step0(F!Direct(o), st[b].s, ev)
         IN CASE r.v = "bad" -> Bad(st, <<"object", b, r.want>>)
              [] r.v = "stop" -> Go([st EXCEPT ![b] = [on |-> "over", s |-> r.s]])
              [] r.v = "go" -> Go([st EXCEPT ![b] = [on |-> "yes", s |-> r.s]])
Final0(c, st) ==
  IF c.kind = "wire" THEN ""
  ELSE LET left == {b \in 1..Len(c.objs) : Codec(c.objs[b]) /\ st[b].on = "yes" /\ CT!Final0(c.objs[b], st[b].s) # ""}
       IN IF left = {} THEN "" ELSE LET b == CHOOSE x \in left : TRUE IN ToString(<<"object", b, CT!Final0(c.objs[b], st[b].s)>>)
T == INSTANCE CaseTrace WITH Cases <- AllCases, InitOf <- Init0, Step <- Step0, Final <- Final0
Spec == T!Init /\ [][T!Next]_<<ci, oi, s, status>>
=============================================================================
