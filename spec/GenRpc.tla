------------------------------- MODULE GenRpc -------------------------------
(* Generated clients and processors on one connection.  Method m has the
   structs m_args and m_result in env (m_result: the success field, id 0, if
   the method has a value, and its exceptions); fns says which are oneway.
   What a handler answers is a struct m_result, and whether it fails.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Deviation
\* "oneway" (oneway calls are answered too), "value" (the value goes out even
\* beside an exception), "first" (of several exceptions the first goes out)
S == INSTANCE GenStruct WITH Deviation <- "none"

CALL == 1
REPLY == 2
EXCEPTION == 3
ONEWAY == 4
UNKNOWN == 1
BADSEQ == 4
INTERNAL == 6
PROTOCOL == 7

Args(m) == m \o "_args"
Result(m) == m \o "_result"
\* the exceptions of a result that are there
Thrown(env, x) == {k \in 1..Len(env[x.v]) : env[x.v][k].i # 0 /\ ~S!IsNil(x.a[k])}
\* a result goes out as one of its fields: an exception before the value, of
\* several exceptions the one with the highest id
Only(env, x) ==
  LET th == Thrown(env, x)
      fs == env[x.v]
      one == IF Deviation = "first" THEN CHOOSE k \in th : \A j \in th : fs[k].i <= fs[j].i
             ELSE CHOOSE k \in th : \A j \in th : fs[k].i >= fs[j].i
      fresh == S!NewObj(env, x.v)
      keep == IF th = {} THEN {k \in 1..Len(fs) : fs[k].i = 0} ELSE {one} \cup (IF Deviation = "value" THEN {k \in 1..Len(fs) : fs[k].i = 0} ELSE {})
      gone(f) == IF f.t.k = "ENUM" THEN S!V("ENUM", "UNSET", <<>>) ELSE S!Nil
  IN [x EXCEPT !.a = [k \in 1..Len(fs) |-> IF k \in keep THEN x.a[k] ELSE gone(fs[k])]]
ResultWire(env, x) ==
  LET y == Only(env, x)
      w == S!WireOf(env, y)
  IN w
RECURSIVE Bare(_)
\* names of structs and fields are not on the wire, nor always the types of a
\* map without entries
Bare(w) == [w EXCEPT !.v = IF w.t \in {"STRUCT", "FIELD"} \/ (w.t = "MAP" /\ w.a = <<>>) THEN "" ELSE w.v, !.a = [n \in 1..Len(w.a) |-> Bare(w.a[n])]]
Handled(env, m, a) == [m |-> m, a |-> S!Sent(env, a, Args(m))]
Got(env, m, x) == S!ReadInto(env, S!NewObj(env, Result(m)), ResultWire(env, x))

\* ---- one observed call.  c: [env, fns, lazy, wire, skips]; s: [seq, pend] ----
Start == [seq |-> 0 - 1, pend |-> <<>>]
Go(s) == [v |-> "go", s |-> s]
Stop(s) == [v |-> "stop", s |-> s]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
EqCalls(h, w) == Len(h) = Len(w) /\ \A n \in 1..Len(h) : h[n].m = w[n].m /\ S!Eq(h[n].a, w[n].a)
SameWire(c, w, x) == ~c.wire \/ (S!Eq(w, Bare(x)) /\ [n \in 1..Len(w.a) |-> w.a[n].i] = [n \in 1..Len(x.a) |-> x.a[n].i])

RStep(c, s, ev) ==
  IF ev.o = "Drain"
  THEN IF ev.e # 0 \/ ~EqCalls(ev.handled, s.pend) THEN Bad(s, <<"the handler is called with", s.pend>>)
       ELSE IF ev.rep.n # "" THEN Bad(s, "oneway calls have no reply") ELSE Go([s EXCEPT !.pend = <<>>])
  ELSE
  LET env == c.env
      m == ev.m
      one == c.fns[m].oneway
      here == IF ev.drop \/ ev.garble THEN s.pend ELSE Append(s.pend, Handled(env, m, ev.a))
      due == IF c.lazy /\ one THEN <<>> ELSE here
      t == [s EXCEPT !.seq = ev.req.seq, !.pend = IF c.lazy /\ one THEN here ELSE <<>>]
      aw == S!WireOf(env, ev.a)
      rw == ResultWire(env, ev.x)
      y == Got(env, m, ev.x)
  IN
  IF ev.e # 0 THEN Bad(s, "the call comes back")
  ELSE IF ev.fail THEN IF ev.ce = 0 \/ ~EqCalls(ev.handled, <<>>) THEN Bad(s, "a call that cannot be sent is an error") ELSE Stop([s EXCEPT !.pend = <<>>])
  ELSE IF ev.req.bad # "" \/ ev.req.n # m \/ ev.req.ty \notin (IF one THEN {CALL, ONEWAY} ELSE {CALL})
       THEN Bad(s, <<"one call message with the method's name", m>>)
  ELSE IF ev.req.seq = s.seq THEN Bad(s, "a sequence id of its own")
  ELSE IF ~SameWire(c, ev.req.w, aw) THEN Bad(s, <<"the arguments as declared", Bare(aw)>>)
  ELSE IF ~EqCalls(ev.handled, due) THEN Bad(s, <<"the handler is called once with what was sent:", due>>)
  ELSE IF one
       THEN IF ev.rep.n # "" \/ ev.rep.bad # "" THEN Bad(s, "no reply to a oneway call")
            ELSE IF ev.ce # 0 THEN Bad(s, "a oneway call comes back without an error")
            ELSE IF ev.garble THEN Stop(t)
            ELSE IF ~c.lazy /\ ev.left # 0 THEN Bad(s, "nothing is left on the connection")
            ELSE Go(t)
  ELSE IF ev.rep.bad # "" \/ ev.rep.n # m \/ ev.rep.seq # ev.req.seq THEN Bad(s, "one reply, with the name and the sequence id of the call")
  ELSE IF ev.rep.ty # (IF ev.drop \/ ev.err \/ ev.garble THEN EXCEPTION ELSE REPLY) THEN Bad(s, "a reply for a result, an exception for a failure")
  ELSE IF ev.rep.ty = REPLY /\ ~SameWire(c, ev.rep.w, rw) THEN Bad(s, <<"the result as declared", Bare(rw)>>)
  ELSE IF ev.cut > 0 THEN IF ev.ce = 0 THEN Bad(s, "a reply that was cut short is an error") ELSE Stop(t)
  ELSE IF ev.garble THEN IF ev.ce # 2 \/ ev.code # PROTOCOL THEN Bad(s, "the client learns that its arguments could not be read") ELSE Stop(t)
  ELSE IF ev.drop
       THEN IF ev.ce # 2 \/ ev.code # UNKNOWN THEN Bad(s, "the client learns that the method is unknown")
            ELSE IF ~c.skips THEN Stop(t) \* a protocol without types has lost its place
            ELSE IF ev.left # 0 THEN Bad(s, "nothing is left on the connection") ELSE Go(t)
  ELSE IF ev.err
       THEN IF ev.ce # 2 \/ ev.code # INTERNAL \/ ~ev.told THEN Bad(s, "the client learns that the handler failed, and why")
            ELSE IF ev.left # 0 THEN Bad(s, "nothing is left on the connection") ELSE Go(t)
  ELSE IF ev.skew THEN IF ev.ce # 2 \/ ev.code # BADSEQ THEN Bad(s, "the reply to another call is refused") ELSE Stop(t)
  ELSE IF ev.ce # 0 THEN Bad(s, "the call comes back without an error")
  ELSE IF ~S!Eq(ev.y, y) THEN Bad(s, <<"the caller gets what the handler gave:", y>>)
  ELSE IF ev.left # 0 THEN Bad(s, "nothing is left on the connection")
  ELSE Go(t)
RFinal(c, s) == IF s.pend = <<>> THEN "" ELSE "the calls that were sent are handled"
=============================================================================
