------------------------------- MODULE Socket -------------------------------
(* A socket transport and its TCP peer.
   State:  open   connected
           lis    somebody listens at the address (ok: the address is usable)
           in     bytes the peer sent on this connection, not yet read
           peer   "up", "eof" (has sent its last byte), "gone" (closed)
           w      bytes written on this connection; f: how many were flushed
   ev.got: all bytes the peer has received on the connection concerned.    *)
EXTENDS Bytes, TLC
Go(s) == [v |-> "go", s |-> s, want |-> ""]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
Stop(s) == [v |-> "stop", s |-> s, want |-> ""]
Min(a, b) == IF a < b THEN a ELSE b
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Drop(s, n) == SubSeq(s, n + 1, Len(s))
NOT_OPEN == 1
ALREADY_OPEN == 2
EOF == 4
KInit(c) == [open |-> c.conn = 1, lis |-> c.badaddr = 0, in |-> <<>>, peer |-> "up", w |-> <<>>, f |-> 0]
Fresh(s) == [s EXCEPT !.open = TRUE, !.in = <<>>, !.peer = "up", !.w = <<>>, !.f = 0]
Closed(s) == [s EXCEPT !.open = FALSE, !.in = <<>>, !.w = <<>>, !.f = 0]
NotOpen(s, ev) == IF ev.e = 1 /\ ev.ek = NOT_OPEN /\ ev.got = <<>> THEN Go(s) ELSE Bad(s, "not open")
GotOK(s, ev) == s.peer = "gone" \/ (IsPrefix(ev.got, s.w) /\ Len(ev.got) >= s.f)
KStep(c, s, ev) ==
  IF ev.e >= 2 THEN Bad(s, "no panic, no hang")
  ELSE CASE ev.o = "Open" ->
         IF s.open THEN IF ev.e = 1 /\ ev.ek = ALREADY_OPEN THEN Go(s) ELSE Bad(s, "already open")
         ELSE IF ~s.lis THEN IF ev.e = 1 /\ ev.ek = NOT_OPEN THEN Go(s) ELSE Bad(s, "not open")
         ELSE IF ev.e = 0 THEN Go(Fresh(s)) ELSE Bad(s, "connected")
    [] ev.o = "W" ->
         IF ~s.open THEN NotOpen(s, ev)
         ELSE IF s.peer \in {"gone", "reset"} THEN Go([s EXCEPT !.w = s.w \o ev.v, !.peer = "reset"])
         ELSE IF ev.e # 0 \/ ev.n # Len(ev.v) THEN Bad(s, "written whole")
         ELSE LET s2 == [s EXCEPT !.w = s.w \o ev.v] IN IF GotOK(s2, ev) THEN Go(s2) ELSE Bad(s, <<"peer receives, in order", s2.w>>)
    [] ev.o = "F" ->
         IF ~s.open THEN NotOpen(s, ev)
         ELSE IF s.peer = "gone" THEN Go([s EXCEPT !.peer = "reset"])
         ELSE IF s.peer = "reset" THEN Go(s)
         ELSE IF ev.e = 0 /\ ev.got = s.w THEN Go([s EXCEPT !.f = Len(s.w)]) ELSE Bad(s, <<"peer has received", s.w>>)
    [] ev.o \in {"R", "RA"} ->
         IF ~s.open THEN IF ev.e = 1 /\ ev.ek = NOT_OPEN /\ ev.n = 0 THEN Go(s) ELSE Bad(s, "not open")
         ELSE IF s.peer = "reset" THEN Stop(s)
         ELSE IF ev.k = 0 THEN IF ev.n = 0 THEN Go(s) ELSE Bad(s, "no bytes")
         ELSE IF ev.o = "R" /\ s.in # <<>>
         THEN IF ev.e = 0 /\ ev.n >= 1 /\ ev.n <= Min(ev.k, Len(s.in)) /\ ev.v = Take(s.in, 1, ev.n) THEN Go([s EXCEPT !.in = Drop(s.in, ev.n)])
              ELSE Bad(s, <<"data", s.in>>)
         ELSE IF ev.o = "RA" /\ Len(s.in) >= ev.k
         THEN IF ev.e = 0 /\ ev.n = ev.k /\ ev.v = Take(s.in, 1, ev.k) THEN Go([s EXCEPT !.in = Drop(s.in, ev.k)]) ELSE Bad(s, <<"exactly", Take(s.in, 1, ev.k)>>)
         ELSE IF ev.e # 1 THEN Bad(s, "an error: no more data")
         ELSE IF s.peer # "up" /\ ev.ek # EOF THEN Bad(s, "end of file")
         ELSE IF ev.n = Len(s.in) /\ ev.v = s.in THEN Go([s EXCEPT !.in = <<>>]) ELSE Stop(s)
    [] ev.o \in {"Close", "Interrupt"} ->
         IF ~s.open THEN IF ev.e = 0 THEN Go(s) ELSE Bad(s, "nothing to do")
         ELSE IF s.peer = "reset" THEN Go(Closed(s))
         ELSE IF ev.e = 0 /\ GotOK(s, ev) THEN Go(Closed(s)) ELSE Bad(s, <<"closed; peer received the flushed bytes", s.w, s.f>>)
    [] ev.o = "RInt" ->    \* a blocked read interrupted from another goroutine
         IF ~s.open THEN IF ev.e = 1 /\ ev.ek = NOT_OPEN THEN Go(s) ELSE Bad(s, "not open")
         ELSE IF s.in # <<>> \/ s.peer # "up" THEN Stop(s)
         ELSE IF ev.e = 1 THEN Go(Closed(s)) ELSE Bad(s, "an error")
    [] ev.o \in {"IsOpen", "Peek"} -> IF ev.n = (IF s.open THEN 1 ELSE 0) THEN Go(s) ELSE Bad(s, s.open)
    [] ev.o = "PSend" -> IF s.open /\ s.peer = "up" THEN Go([s EXCEPT !.in = s.in \o ev.v]) ELSE Go(s)
    [] ev.o = "PEof" -> IF s.open /\ s.peer = "up" THEN Go([s EXCEPT !.peer = "eof"]) ELSE Go(s)
    [] ev.o = "PClose" -> IF s.open THEN Go([s EXCEPT !.peer = IF s.peer = "reset" THEN "reset" ELSE IF Len(s.w) > s.f THEN "reset" ELSE "gone"]) ELSE Go(s)
    [] ev.o = "LOff" -> Go([s EXCEPT !.lis = FALSE])
    [] ev.o = "LOn" -> Go([s EXCEPT !.lis = c.badaddr = 0])
    [] OTHER -> IF ev.e = 0 THEN Go(s) ELSE Bad(s, "success")
=============================================================================
