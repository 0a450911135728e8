----------------------------- MODULE HttpClient -----------------------------
(* The HTTP client transport against a server with scripted answers.
   State:  open, req   bytes written since the previous flush
           has, body   a response is current; what is left of its body
           cut         that body ends early
           ai          answers used
   ev.reqs: the requests the server has seen during the call.              *)
EXTENDS Bytes, TLC
Go(s) == [v |-> "go", s |-> s, want |-> ""]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
Stop(s) == [v |-> "stop", s |-> s, want |-> ""]
Min(a, b) == IF a < b THEN a ELSE b
Drop(s, n) == SubSeq(s, n + 1, Len(s))
NOT_OPEN == 1
EOF == 4
Good(a) == a.st = 200
HInit(c) == IF c.post = 1 THEN [open |-> TRUE, req |-> <<>>, has |-> FALSE, body |-> <<>>, cut |-> FALSE, ai |-> 0]
            ELSE [open |-> TRUE, req |-> <<>>, has |-> TRUE, body |-> c.answers[1].body, cut |-> c.answers[1].cut = 1, ai |-> 1]
AnswerOf(c, i) == c.answers[((i - 1) % Len(c.answers)) + 1]
NotOpen(s, ev) == IF ev.e = 1 /\ ev.ek = NOT_OPEN /\ ev.reqs = <<>> THEN Go(s) ELSE Bad(s, "not open")
EndOK(s, ev) == ev.e = 1 /\ (s.cut \/ ev.ek = EOF)
HStep(c, s, ev) ==
  IF ev.e >= 2 THEN Bad(s, "no panic, no hang")
  ELSE IF ev.o # "F" /\ ev.reqs # <<>> THEN Bad(s, "no request")
  ELSE CASE ev.o = "W" ->
         IF ~s.open \/ c.post = 0 THEN NotOpen(s, ev)
         ELSE IF ev.e = 0 /\ ev.n = Len(ev.v) THEN Go([s EXCEPT !.req = s.req \o ev.v]) ELSE Bad(s, "written whole")
    [] ev.o = "F" ->
         IF ~s.open \/ c.post = 0 THEN NotOpen(s, ev)
         ELSE IF Len(ev.reqs) # 1 \/ ev.reqs[1].m # "POST" \/ ev.reqs[1].ct # "application/x-thrift" \/ ev.reqs[1].body # s.req
         THEN Bad(s, <<"one POST of", s.req>>)
         ELSE LET a == AnswerOf(c, s.ai + 1)
                  s2 == [s EXCEPT !.req = <<>>, !.ai = s.ai + 1, !.has = FALSE, !.body = <<>>, !.cut = FALSE]
              IN IF Good(a) THEN IF ev.e = 0 THEN Go([s2 EXCEPT !.has = TRUE, !.body = a.body, !.cut = a.cut = 1]) ELSE Bad(s, "success")
                 ELSE IF ev.e = 1 THEN Go(s2) ELSE Bad(s, "an error")
    [] ev.o \in {"R", "RA"} /\ ev.k = 0 -> IF ev.n = 0 THEN Go(s) ELSE Bad(s, "no bytes")
    [] ev.o = "R" ->
         IF ~s.has THEN IF ev.e = 1 /\ ev.n = 0 /\ (s.open \/ ev.ek = NOT_OPEN) THEN Go(s) ELSE Bad(s, "an error: no response")
         ELSE IF s.body = <<>> THEN IF ev.n = 0 /\ EndOK(s, ev) THEN Go(s) ELSE Bad(s, "the end")
         ELSE IF ev.n < 1 \/ ev.n > Min(ev.k, Len(s.body)) \/ ev.v # Take(s.body, 1, ev.n) THEN Bad(s, <<"data", s.body>>)
         ELSE IF ev.e = 0 \/ (EndOK(s, ev) /\ ev.n = Len(s.body)) THEN Go([s EXCEPT !.body = Drop(s.body, ev.n)]) ELSE Bad(s, <<"data", s.body>>)
    [] ev.o = "RA" ->
         IF ~s.has THEN IF ev.e = 1 /\ ev.n = 0 /\ (s.open \/ ev.ek = NOT_OPEN) THEN Go(s) ELSE Bad(s, "an error: no response")
         ELSE IF ev.k <= Len(s.body) THEN IF ev.e = 0 /\ ev.n = ev.k /\ ev.v = Take(s.body, 1, ev.k) THEN Go([s EXCEPT !.body = Drop(s.body, ev.k)])
                                         ELSE Bad(s, <<"exactly", Take(s.body, 1, ev.k)>>)
         ELSE IF ~EndOK(s, ev) THEN Bad(s, "the end")
         ELSE IF ev.n = Len(s.body) /\ ev.v = s.body THEN Go([s EXCEPT !.body = <<>>]) ELSE Stop(s)
    [] ev.o = "Close" -> IF ev.e = 0 THEN Go([s EXCEPT !.open = FALSE, !.has = FALSE, !.body = <<>>, !.req = <<>>]) ELSE Bad(s, "success")
    [] ev.o \in {"IsOpen", "Peek"} -> IF ev.n = (IF s.open THEN 1 ELSE 0) THEN Go(s) ELSE Bad(s, s.open)
    [] ev.o = "Conns" -> IF ev.n <= c.maxconns THEN Go(s) ELSE Bad(s, "connections are given back")
    [] OTHER -> IF ev.e = 0 THEN Go(s) ELSE Bad(s, "success")
=============================================================================
