-------------------------------- MODULE Rpc --------------------------------
(* Remote calls, followed along a recorded history.  c.calls[n]: call number n
   of client cl, with sequence id s, name, the values a the server side must
   see, the values r the client side must get, and its kind:
     call     the handler returns r
     oneway   no reply
     unknown  a method the processor does not know
     fail     the handler fails: an application exception of kind k, text v
     badseq   the peer answers with another sequence id
   c.srv: "direct" a processor on its own connection; "http" one per request;
   "simple" | "nb" a server, which may end a connection after a failed call.
   Events: send n, sent n e, got n s t a, fin n, ret n e ex h ...           *)
EXTENDS Integers, Sequences, TLC
Go(s) == [v |-> "go", s |-> s, want |-> ""]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
If(b, s, want) == IF b THEN Go(s) ELSE Bad(s, want)
CALL == 1
REPLY == 2
EXCEPTION == 3
ONEWAY == 4
UNKNOWN_METHOD == 1
BAD_SEQUENCE_ID == 4
INTERNAL_ERROR == 6
VInit(c) == [st |-> [n \in 1..Len(c.calls) |-> "no"], dead |-> [i \in 1..c.nc |-> 0]]
Before(c, n) == {m \in 1..Len(c.calls) : m < n /\ c.calls[m].cl = c.calls[n].cl}
Failed(k) == k \in {"fail", "unknown"}
Handled(k) == k # "unknown"
(* calls may end in nothing once the server may have ended the connection *)
Dead(c, s, n) == s.dead[c.calls[n].cl] = 1
VStep(c, s, ev) ==
  LET n == ev.n  k == c.calls[n]  to(x) == [s EXCEPT !.st[n] = x] IN
  IF n < 1 \/ n > Len(c.calls) THEN Bad(s, "calls that were made")
  ELSE IF ev.e >= 2 THEN Bad(s, "no panic, no hang")
  ELSE
  CASE ev.o = "send" -> If(s.st[n] = "no", to("send"), "harness: sent once")
    [] ev.o = "sent" -> If(ev.e = 0 \/ Dead(c, s, n), s, "the call is sent")
    [] ev.o = "got" ->
         IF ~Handled(k.kind) THEN Bad(s, "no handler for an unknown method")
         ELSE IF s.st[n] # "send" \/ \E m \in Before(c, n) : Handled(c.calls[m].kind) /\ s.st[m] \in {"no", "send"} THEN Bad(s, "each call is handled once, in order")
         ELSE IF ev.h = 1 /\ (ev.s # k.s \/ ev.t # (IF k.kind = "oneway" THEN ONEWAY ELSE CALL)) THEN Bad(s, <<"header", k.s, k.kind>>)
         ELSE If(ev.a = k.a, to("got"), <<"arguments", k.a>>)
    [] ev.o = "fin" -> If(s.st[n] = "got", to("fin"), "harness: handled first")
    [] ev.o = "ret" ->
         IF s.st[n] = "ret" \/ \E m \in Before(c, n) : c.calls[m].kind # "oneway" /\ s.st[m] # "ret" THEN Bad(s, "harness: replies in order")
         ELSE LET s2 == [s EXCEPT !.st[n] = "ret", !.dead[k.cl] = IF (Failed(k.kind) /\ c.srv \in {"simple", "nb"}) \/ k.kind = "badseq" THEN 1 ELSE s.dead[k.cl]]
              IN IF ev.e = 1 /\ Dead(c, s, n) /\ ev.ex = 0 THEN Go([s2 EXCEPT !.dead[k.cl] = 1])
                 ELSE IF k.kind \in {"call", "fail"} /\ s.st[n] # "fin" THEN Bad(s, "no reply before the handler returns")
                 ELSE IF ev.h = 1 /\ (ev.name # k.name \/ ev.s # k.s \/ ev.t # (IF Failed(k.kind) THEN EXCEPTION ELSE REPLY)) THEN Bad(s, <<"reply header", k.name, k.s, k.kind>>)
                 ELSE CASE k.kind = "call" -> If(ev.e = 0 /\ ev.a = k.r, s2, <<"result", k.r>>)
                        [] k.kind = "unknown" -> If(ev.e = 1 /\ ev.ex = 1 /\ ev.k = UNKNOWN_METHOD, s2, "an application exception: unknown method")
                        [] k.kind = "fail" -> If(ev.e = 1 /\ ev.ex = 1 /\ ev.k = INTERNAL_ERROR /\ ev.v = k.v, s2, <<"an application exception", INTERNAL_ERROR, k.v>>)
                        [] k.kind = "badseq" -> If(ev.e = 1 /\ ev.ex = 1 /\ ev.k = BAD_SEQUENCE_ID, s2, "an application exception: bad sequence id")
                        [] OTHER -> Bad(s, "harness: no reply to a oneway call")
    [] OTHER -> Bad(s, "harness: unknown event")
(* every call sent on a living connection is handled, and answered *)
VFinal(c, s) == IF \E n \in 1..Len(c.calls) : s.st[n] = "send" /\ Handled(c.calls[n].kind) /\ s.dead[c.calls[n].cl] = 0 THEN "every call is handled"
                ELSE ""
=============================================================================
