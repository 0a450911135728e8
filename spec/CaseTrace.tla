----------------------------- MODULE CaseTrace -----------------------------
(* Trace validation over many independent recorded cases.  Each case is one
   initial state; the specification's Step operator must be able to follow
   every recorded event.  Step(c, s, ev) returns
     [v |-> "go",   s |-> next state]       the event is allowed
     [v |-> "stop", s |-> s]                allowed; nothing after it is checked
     [v |-> "bad",  s |-> s, want |-> ...]  the specification forbids the event
   Final(c, s) = "" accepts the state after the last event.               *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Cases, InitOf(_), Step(_, _, _), Final(_, _)
VARIABLES ci, oi, s, status
vars == <<ci, oi, s, status>>

Init == /\ ci \in 1..Len(Cases)
        /\ oi = 1
        /\ s = InitOf(Cases[ci])
        /\ status = "run"

Finish(verdict) == /\ status' = verdict
                   /\ PrintT(<<"CASE", ci, verdict, oi>>)

Next ==
  /\ status = "run"
  /\ UNCHANGED ci
  /\ LET c == Cases[ci] IN
     IF oi > Len(c.ops)
     THEN /\ UNCHANGED <<oi, s>>
          /\ LET f == Final(c, s)
             IN IF f = "" THEN Finish("ok")
                ELSE /\ Finish("bad")
                     /\ PrintT(<<"WANT", ci, oi, ToString(f)>>)
     ELSE LET r == Step(c, s, c.ops[oi])
          IN CASE r.v = "go" -> /\ s' = r.s /\ oi' = oi + 1 /\ UNCHANGED status
               [] r.v = "stop" -> /\ UNCHANGED <<oi, s>> /\ Finish("ok")
               [] r.v = "bad" -> /\ UNCHANGED <<oi, s>> /\ Finish("bad")
                                 /\ PrintT(<<"WANT", ci, oi, ToString(r.want)>>)
=============================================================================
