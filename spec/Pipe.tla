-------------------------------- MODULE Pipe --------------------------------
(* Memory buffer: one queue of bytes.  Stream transport: a queue towards the
   writer and one from the reader, either of which may be absent.           *)
EXTENDS Bytes, TLC
Go(s) == [v |-> "go", s |-> s, want |-> ""]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
Stop(s) == [v |-> "stop", s |-> s, want |-> ""]
Min(a, b) == IF a < b THEN a ELSE b
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Drop(s, n) == SubSeq(s, n + 1, Len(s))
NOT_OPEN == 1
EOF == 4

(* reading k > 0 bytes from queue q: what is allowed, given that the other end
   is finished with an error of kind ek *)
QRead(s, q, ev, ek, To(_)) ==
  IF q # <<>>
  THEN IF ev.e = 0 /\ ev.n >= 1 /\ ev.n <= Min(ev.k, Len(q)) /\ ev.v = Take(q, 1, ev.n) THEN Go(To(Drop(q, ev.n)))
       ELSE IF ev.e = 1 /\ ev.ek = ek /\ ev.n >= 1 /\ ev.n = Len(q) /\ ev.n <= ev.k /\ ev.v = q THEN Go(To(<<>>))   \* the last bytes together with the end
       ELSE Bad(s, <<"data", q>>)
  ELSE IF ev.e = 1 /\ ev.n = 0 /\ ev.ek = ek THEN Go(s) ELSE Bad(s, <<"error of kind", ek>>)
QReadAll(s, q, ev, ek, To(_)) ==
  IF ev.k <= Len(q)
  THEN IF ev.e = 0 /\ ev.n = ev.k /\ ev.v = Take(q, 1, ev.k) THEN Go(To(Drop(q, ev.k))) ELSE Bad(s, <<"exactly", Take(q, 1, ev.k)>>)
  ELSE IF ev.e # 1 \/ ev.ek # ek THEN Bad(s, <<"error of kind", ek>>)
       ELSE IF ev.n = Len(q) /\ ev.v = q THEN Go(To(<<>>)) ELSE Stop(s)

(* ---- memory buffer: s is the queue ---- *)
MStep(c, s, ev) ==
  LET Id(q) == q IN
  IF ev.e >= 2 THEN Bad(s, "no panic, no hang")
  ELSE CASE ev.o \in {"W", "WS"} -> IF ev.e = 0 /\ ev.n = Len(ev.v) THEN Go(s \o ev.v) ELSE Bad(s, "written whole")
    [] ev.o = "RF" -> IF ev.e = 0 /\ ev.n = Len(ev.v) THEN Go(s \o ev.v) ELSE Bad(s, "taken whole")
    [] ev.o \in {"R", "RA"} /\ ev.k = 0 -> IF ev.n = 0 THEN Go(s) ELSE Bad(s, "no bytes")
    [] ev.o = "R" -> QRead(s, s, ev, EOF, Id)
    [] ev.o = "RA" -> QReadAll(s, s, ev, EOF, Id)
    [] ev.o = "RB" -> IF s = <<>> THEN IF ev.e = 1 THEN Go(s) ELSE Bad(s, "an error")
                      ELSE IF ev.e = 0 /\ ev.n = s[1] THEN Go(Drop(s, 1)) ELSE Bad(s, s[1])
    [] ev.o = "WT" -> IF ev.e = 0 /\ ev.v = s /\ ev.n = Len(s) THEN Go(<<>>) ELSE Bad(s, s)
    [] ev.o = "Len" -> IF ev.n = Len(s) THEN Go(s) ELSE Bad(s, Len(s))
    [] ev.o \in {"Bytes", "String"} -> IF ev.v = s THEN Go(s) ELSE Bad(s, s)
    [] ev.o \in {"Reset", "Close"} -> IF ev.e = 0 THEN Go(<<>>) ELSE Bad(s, "success")
    [] ev.o \in {"IsOpen", "Peek"} -> IF ev.n = 1 THEN Go(s) ELSE Bad(s, "open")
    [] OTHER -> IF ev.e = 0 THEN Go(s) ELSE Bad(s, "success")

(* ---- stream transport ----
   r, w: reader / writer present; in: what the reader still has; acc: what was
   accepted; outp: what has reached the writer; sure: accepted before the last
   successful flush; owe: an error of the writer not passed on yet                                       *)
SInit(c) == [r |-> c.hasr = 1, w |-> c.hasw = 1, in |-> c.wire, acc |-> <<>>, outp |-> <<>>, sure |-> 0, owe |-> FALSE]
Reached(s, ev) == s.outp \o ev.out
SStep(c, s, ev) ==
  LET To(q) == [s EXCEPT !.in = q] IN
  IF ev.e >= 2 THEN Bad(s, "no panic, no hang")
  ELSE IF ev.o \notin {"W", "F", "Close"} /\ ev.out # <<>> THEN Bad(s, "nothing written")
  ELSE CASE ev.o = "W" ->
         IF ~s.w THEN IF ev.e = 1 /\ ev.ek = NOT_OPEN /\ ev.n = 0 /\ ev.out = <<>> THEN Go(s) ELSE Bad(s, "not open")
         ELSE IF ev.bad = 1 \/ c.failw > 0   \* the writer has failed or will
         THEN IF ev.e = 1 THEN IF ev.own = 1 /\ IsPrefix(Reached(s, ev), s.acc \o ev.v) THEN Stop(s) ELSE Bad(s, "the writer's own error")
              ELSE IF ev.n = Len(ev.v) /\ IsPrefix(Reached(s, ev), s.acc \o ev.v)
                   THEN Go([s EXCEPT !.acc = s.acc \o ev.v, !.outp = Reached(s, ev), !.owe = s.owe \/ ev.bad = 1]) ELSE Bad(s, "bytes in order")
         ELSE IF ev.e = 0 /\ ev.n = Len(ev.v) /\ IsPrefix(Reached(s, ev), s.acc \o ev.v)
              THEN Go([s EXCEPT !.acc = s.acc \o ev.v, !.outp = Reached(s, ev)])
              ELSE Bad(s, "accepted whole, bytes in order")
    [] ev.o = "F" ->
         IF ~s.w THEN IF ev.e = 1 /\ ev.ek = NOT_OPEN /\ ev.out = <<>> THEN Go(s) ELSE Bad(s, "not open")
         ELSE IF ev.bad = 1 \/ s.owe THEN IF ev.e = 1 /\ ev.own = 1 /\ IsPrefix(Reached(s, ev), s.acc) THEN Stop(s) ELSE Bad(s, "the writer's own error")
         ELSE IF ev.e = 0 /\ Reached(s, ev) = s.acc THEN Go([s EXCEPT !.outp = s.acc, !.sure = Len(s.acc)])
         ELSE Bad(s, <<"everything written", s.acc>>)
    [] ev.o \in {"R", "RA"} /\ ev.k = 0 -> IF ev.n # 0 THEN Bad(s, "no bytes") ELSE Go(s)
    [] ev.o = "R" -> IF ~s.r THEN IF ev.e = 1 /\ ev.ek = NOT_OPEN /\ ev.n = 0 THEN Go(s) ELSE Bad(s, "not open")
                     ELSE QRead(s, s.in, ev, c.endk, To)
    [] ev.o = "RA" -> IF ~s.r THEN IF ev.e = 1 /\ ev.ek = NOT_OPEN THEN Go(s) ELSE Bad(s, "not open")
                      ELSE QReadAll(s, s.in, ev, c.endk, To)
    [] ev.o = "Close" -> IF ev.e = 0 /\ IsPrefix(Reached(s, ev), s.acc) THEN Go([s EXCEPT !.r = FALSE, !.w = FALSE, !.outp = Reached(s, ev)])
                         ELSE Bad(s, "success")
    [] OTHER -> Go(s)
=============================================================================
